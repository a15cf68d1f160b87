"""C08 what the VEN accepts from the network, C10 its registration, C26 its requests, C28 hooks, C29 handlers."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
from lxml.etree import XMLSyntaxError
from signxml.exceptions import InvalidSignature
import aiohttp
import asyncio
from openleadr import objects, utils, enums, errors, hooks, messaging
from openleadr.client import OpenADRClient
from openleadr.server import OpenADRServer
from openleadr.service import EventService, PollService, ReportService, RegistrationService
from contracts.c_client import Task, TaskLoop, make_client, Scheduler, check_sent
from contracts.c_vtn import BadXml


class Reply:
    def __init__(self, status, content):
        self.status = status
        self.content = content

    async def read(self):
        return self.content


class Post:
    def __init__(self, session, reply):
        self.session = session
        self.reply = reply

    async def __aenter__(self):
        if self.session.fails is not None:
            raise self.session.fails
        return self.reply

    async def __aexit__(self, *a):
        return False


class Session:
    def __init__(self, reply, fails=None):
        self.reply = reply
        self.fails = fails
        self.posts = []
        self.closed = 0

    def post(self, url, data=None, **kw):
        self.posts.append((url, data))
        return Post(self, self.reply)

    async def close(self):
        self.closed = self.closed + 1


class NoConnection(aiohttp.client_exceptions.ClientConnectorError):
    def __init__(self):
        pass

    def __str__(self):
        return 'no connection'


@contract('C08', 'C28', targets=['client.OpenADRClient._perform_request'], samples=400, budget=120)
def perform_request(w):
    """Only a valid, correctly signed message from the VTN is handed on; anything else is treated as no answer."""
    c, net = make_client(w)
    del c._perform_request
    pinned = w.choice('pinned', 2) == 1
    c.vtn_fingerprint = 'FP' if pinned else None
    fault = w.choice('fault', 8)
    status = 200 if fault != 1 else w.make('status', Int(201, 599, pool=[403, 404, 500]))
    content = b'' if fault == 2 else b'<x/>'
    session = Session(Reply(status, content), [NoConnection(), AnyError('broken')][fault - 6] if fault >= 6 else None)
    c.client_session = session
    tree = object()
    sig = []

    def schema(content):
        if fault == 3:
            raise BadXml()
        return tree

    def signature(xml_tree, cert_fingerprint=None):
        sig.append((xml_tree, cert_fingerprint))
        if fault == 4:
            raise InvalidSignature('bad')
        if fault == 5:
            raise errors.FingerprintMismatch('other')

    payload = {'response': {'response_code': w.make('code', Int(200, 500)), 'response_description': 'x'}}
    w.stub('openleadr.messaging.validate_xml_schema', schema)
    w.stub('openleadr.messaging.validate_xml_signature', signature)
    w.stub('openleadr.messaging.parse_message', lambda data: ('oadrX', payload))
    # every hook point sees its data once, and whether the hooks fail makes no difference
    failing = w.flag('hooks fail')
    seen = {}
    for h in c.hooks:
        seen[h] = w.cb('hook ' + h, raises=AnyError if failing else None, mode='sync')
        c.add_hook(h, seen[h])
    if w.flag('no code'):
        payload = [{}, {'response': {}}, {'x': 1}][w.choice('payload', 3)]
    t, p = w.call(c._perform_request, 'EiTest', '<msg/>')
    good = fault == 0 or (fault in (4, 5) and not pinned)
    # hook points, as far as the message gets
    w.check('before it is sent', w.all_(len(seen['before_send_xml'].calls) == 1, seen['before_send_xml'].calls[0][0][0] == '<msg/>'))
    came = fault < 6
    valid = came and fault not in (1, 2)
    checked = valid and fault != 3 and not (pinned and fault in (4, 5))
    for h, hit in (('after_receive_xml', came), ('before_schema_validation', valid), ('before_parse_xml', checked), ('after_parse_xml', checked)):
        if h in seen:
            w.check('each hook point once, when the message gets there', len(seen[h].calls) == (1 if hit else 0))
            if hit and h != 'after_parse_xml':
                w.check('with what was received', seen[h].calls[0][0][0] == content.decode('utf-8'))
    if checked:
        w.check('with what was read', w.all_(seen['after_parse_xml'].calls[0][0][0] == 'oadrX', w.same(seen['after_parse_xml'].calls[0][0][1], payload)))
    if good:
        w.check('the message is handed on', w.all_(t == 'oadrX', w.same(p, payload)))
    else:
        w.check('no answer', w.all_(t is None, len(p) == 0))
    if fault in (0, 4, 5) and pinned:
        w.check('the signature is checked against the pinned certificate', w.all_(len(sig) == 1, sig[0][1] == 'FP',
                                                                                 w.same(sig[0][0], tree)))
    w.check('one request, to the service', w.all_(len(session.posts) == 1,
                                                  session.posts[0][0] == 'http://vtn.example/EiTest',
                                                  session.posts[0][1] == '<msg/>'))


@contract('C28', targets=['client.OpenADRClient._execute_hooks', 'client.OpenADRClient.add_hook'], samples=200)
def client_hooks(w):
    """Every hook of a hook point is called in order with the data; a failing hook affects nothing else."""
    c, net = make_client(w)
    n = w.size('n', 4, 5)
    order = []
    hs = [w.cb('h' + str(i), raises=AnyError, effect=marker(order, i)) for i in range(n)]
    other = w.cb('other')
    c.add_hook('after_receive_xml', other)
    for h in hs:
        c.add_hook('before_send_xml', h)
    data = w.make('data', Id())
    o = w.try_call(c._execute_hooks, 'before_send_xml', data)
    w.check('never fails', o.raised is None)
    w.check('in order, each once', order == list(range(n)))
    for h in hs:
        w.check('with the data', w.all_(len(h.calls) == 1, w.eq(h.calls[0][0][0], data)))
    w.check('no other hook', len(other.calls) == 0)
    o = w.try_call(c.add_hook, 'no_such_hook', other)
    w.check('unknown hook points are refused', o.is_a(ValueError))


def marker(order, i):
    def mark():
        order.append(i)
    return mark


class Loop:
    def __init__(self):
        self.tasks = []

    def create_task(self, coro):
        self.tasks.append(coro)
        return coro


@contract('C28', targets=['hooks.call', 'hooks.register'], samples=200)
def server_hooks(w):
    """A server hook point starts exactly the registered hooks with the data, and does not wait for them."""
    w.patch('openleadr.hooks.HOOKS', {'before_parse': [], 'before_handle': [], 'after_handle': [], 'before_respond': []})
    loop = Loop()
    w.patch('asyncio.get_event_loop', lambda: loop)
    w.patch('asyncio.get_running_loop', lambda: loop)
    w.patch('asyncio.create_task', loop.create_task)
    w.patch('asyncio.ensure_future', loop.create_task)
    n = w.size('n', 4, 5)
    hs = [w.cb('h' + str(i), fn=lambda a, b: a) for i in range(n)]
    other = w.cb('other')
    for h in hs:
        w.call(hooks.register, 'before_handle', h)
    w.call(hooks.register, 'after_handle', other)
    w.call(hooks.call, 'before_handle', 1, 2)
    w.check('each hook once', len(loop.tasks) == n)
    for h in hs:
        w.check('with the data', w.all_(len(h.calls) == 1, h.calls[0][0] == (1, 2)))
    w.check('no other hook', len(other.calls) == 0)
    w.call(hooks.call, 'before_respond', 1)
    w.check('no hooks, nothing happens', len(loop.tasks) == n)
    o = w.try_call(hooks.register, 'nowhere', other)
    w.check('unknown hook points are refused', o.is_a(ValueError))
    for t in loop.tasks:
        if asyncio.iscoroutine(t):
            t.close()


HANDLERS = {'on_created_event': 'event_service', 'on_request_event': 'event_service',
            'on_register_report': 'report_service', 'on_create_report': 'report_service',
            'on_created_report': 'report_service', 'on_request_report': 'report_service',
            'on_update_report': 'report_service', 'on_poll': 'poll_service',
            'on_query_registration': 'registration_service', 'on_create_party_registration': 'registration_service',
            'on_cancel_party_registration': 'registration_service'}


@contract('C29', targets=['server.OpenADRServer.add_handler'], samples=200)
def server_handlers(w):
    """A handler is registered with the service that calls it; supplying on_poll switches off the built in queue."""
    ev = EventService('vtn')
    po = PollService('vtn', event_service=ev)
    services = {'event_service': ev, 'poll_service': po, 'report_service': ReportService('vtn'),
                'registration_service': RegistrationService('vtn', poll_freq=timedelta(seconds=10))}
    server = w.new(OpenADRServer, services=services)
    names = list(HANDLERS) + ['on_unknown', 'handler', '']
    k = w.choice('name', len(names))
    name = names[k]
    h = w.cb('h')
    o = w.try_call(server.add_handler, name, h)
    if name in HANDLERS:
        w.check('accepted', o.raised is None)
        w.check('registered with its service', w.same(getattr(services[HANDLERS[name]], name), h))
        for s in services:
            if s != HANDLERS[name]:
                w.check('and no other', w.not_(w.same(getattr(services[s], name, None), h)))
    else:
        w.check('unknown handlers are refused', o.is_a(NameError))
    external = name == 'on_poll'
    w.check('polling', w.all_(w.iff(ev.polling_method == 'external', external), w.iff(po.polling_method == 'external', external)))


@contract('C29', targets=['client.OpenADRClient.add_handler'], samples=100)
def client_handlers(w):
    c, net = make_client(w)
    k = w.choice('name', 4)
    name = ['on_event', 'on_update_event', 'on_report', 'poll'][k]
    before = getattr(c, name, None)
    h = w.cb('h')
    o = w.try_call(c.add_handler, name, h)
    w.check('no error', o.raised is None)
    if k < 2:
        w.check('registered', w.same(getattr(c, name), h))
    else:
        w.check('unknown handlers are ignored', w.not_(w.same(getattr(c, name, None), h)))


# ---------------------------------------------------------------- C10 registration of the VEN
@contract('C10', targets=['client.OpenADRClient.create_party_registration'], samples=400)
def ven_registration(w):
    """After registering, the VEN has exactly the identity and poll frequency the VTN gave it."""
    k = w.choice('kind', 4)
    code = 200 if k != 1 else w.make('code', Int(400, 500))
    reg = w.make('reg', OneOf(Const('absent'), Const(None), Id(avoid=('absent',))))
    ven = w.make('ven', OneOf(Const('absent'), Const(None), Id(avoid=('absent',))))
    freq = w.make('freq', Opt(Dur()))
    payload = {'response': {'response_code': code, 'response_description': 'x'}}
    if reg != 'absent':
        payload['registration_id'] = reg
    if ven != 'absent':
        payload['ven_id'] = ven
    has_freq = w.choice('has_freq', 2) == 1
    if has_freq:
        payload['requested_oadr_poll_freq'] = freq

    def answer(service, typ, p):
        if k == 0:
            return None, {}
        return 'oadrCreatedPartyRegistration', payload

    c, net = make_client(w, answers=answer)
    c.registration_id = w.make('oldreg', Opt(Id()))
    c.ven_id = w.make('oldven', Opt(Id()))
    c.poll_frequency = w.make('oldfreq', Opt(Dur()))
    oldreg, oldven, oldfreq = c.registration_id, c.ven_id, c.poll_frequency
    rid = w.make('rid', Opt(Id()))
    r = w.call(c.create_party_registration, request_id=rid)
    w.check('one request', w.all_(len(net.sent) == 1, net.sent[0][0] == 'EiRegisterParty',
                                  net.sent[0][1] == 'oadrCreatePartyRegistration'))
    p = net.sent[0][2]
    w.check('it names this VEN', w.all_(p['ven_name'] == 'ven', w.eq(p['ven_id'], oldven)))
    if rid is not None:
        w.check('the request id given', w.eq(p['request_id'], rid))
    if k < 2:
        w.check('refused: nothing changes', w.all_(w.eq(c.registration_id, oldreg), w.eq(c.ven_id, oldven),
                                                   w.eq(c.poll_frequency, oldfreq)))
    else:
        has_reg = w.all_(w.not_(w.eq(reg, 'absent')), reg is not None)
        has_ven = w.all_(w.not_(w.eq(ven, 'absent')), ven is not None)
        if has_reg:
            w.check('the registration id given', w.eq(c.registration_id, reg))
        else:
            w.check('not registered', c.registration_id is None)
        if has_ven:
            w.check('the ven id given', w.eq(c.ven_id, ven))
        else:
            w.check('the ven id stays', w.eq(c.ven_id, oldven))
        w.check('the answer is handed on', w.all_(r[0] == 'oadrCreatedPartyRegistration', w.same(r[1], payload)))
        if has_reg:
            w.check('the poll frequency given', w.eq(c.poll_frequency, freq if has_freq else timedelta(seconds=10)))
        else:
            w.check('the poll frequency stays', w.eq(c.poll_frequency, oldfreq))


@contract('C10', 'C14', targets=['client.OpenADRClient.create_party_reregistration', 'client.OpenADRClient._poll'], samples=200,
          lists=False)
def ven_reregistration(w):
    """When the VTN asks for it the VEN registers again, offers its reports again and fetches its events."""
    ok = w.choice('ok', 2) == 1
    evs = w.choice('evs', 2) == 1
    reports = w.choice('reports', 2) == 1

    def answer(service, typ, p):
        if typ == 'oadrPoll':
            return 'oadrRequestReregistration', {'ven_id': 'ven1'}
        if typ == 'oadrCreatePartyRegistration':
            r = {'response': {'response_code': 200, 'response_description': 'OK'}, 'ven_id': 'ven2'}
            if ok:
                r['registration_id'] = 'reg2'
            return 'oadrCreatedPartyRegistration', r
        if typ == 'oadrRequestEvent' and evs:
            return 'oadrDistributeEvent', {'events': [1, 2], 'vtn_id': 'V', 'request_id': 'q'}
        return 'oadrResponse', {}

    c, net = make_client(w, answers=answer)
    session = Session(None)
    c.client_session = session
    loop = TaskLoop()
    c.loop = loop
    w.stub('asyncio.get_event_loop', lambda: loop)
    w.stub('asyncio.get_running_loop', lambda: loop)
    w.stub('asyncio.create_task', loop.create_task)
    w.stub('asyncio.ensure_future', loop.create_task)
    # the worker of the previous registration: there was none, it is at work, or it has ended
    old = w.choice('worker', 3)
    if old > 0:
        c.report_queue_task = Task(None, ended=old == 2)
        loop.tasks.append(c.report_queue_task)
    if reports:
        c.reports.append(w.new(objects.Report, report_specifier_id='s', report_request_id=None, created_date_time=None))
    got = []

    async def on(message):
        got.append(message)

    async def worker():
        pass

    c._on_event = on
    c._report_queue_worker = worker
    w.stub('asyncio.sleep', quick_sleep)
    w.call(c._poll)
    typs = [s[1] for s in net.sent]
    w.check('polled once', len([t for t in typs if t == 'oadrPoll']) == 1)
    w.check('registers again', len([t for t in typs if t == 'oadrCreatePartyRegistration']) == 1)
    if ok:
        w.check('registered', w.all_(c.registration_id == 'reg2', c.ven_id == 'ven2'))
        w.check('reports are offered again', len([t for t in typs if t == 'oadrRegisterReport']) == 1)
        w.check('events are fetched', len([t for t in typs if t == 'oadrRequestEvent']) == 1)
        w.check('and handled', len(got) == (1 if evs else 0))
        at_work = [t for t in loop.tasks if not t.done()]
        if reports:
            w.check('one worker sends the reports, so they stay in order', len(at_work) == 1)
            w.check('it ends with the client', w.same(c.report_queue_task, at_work[0]))
        else:
            w.check('no second worker', len(at_work) <= 1)
        w.check('under the new identity', net.sent[-1][2]['ven_id'] == 'ven2')
    else:
        w.check('stops', w.all_(session.closed == 1, len([t for t in typs if t == 'oadrRegisterReport']) == 0))
    k = typs.index('oadrCreatePartyRegistration')
    w.check('as the VEN it was', w.all_(net.sent[k][2]['ven_id'] == 'ven1', net.sent[k][2]['registration_id'] == 'reg1'))
    w.check('the request is confirmed', w.all_(len([t for t in typs if t == 'oadrResponse']) == 1,
                                               [s for s in net.sent if s[1] == 'oadrResponse'][0][2]['response']['response_code'] == 200))


async def quick_sleep(delay, result=None):
    return result


@contract('C26', targets=['client.OpenADRClient.cancel_party_registration',
                          'client.OpenADRClient.on_cancel_party_registration'], samples=300)
def cancel_registration(w):
    """A registration ends when both sides agree; a refusal or a message for another registration changes nothing."""
    by_ven = w.choice('by_ven', 2) == 1
    reg = w.make('reg', Opt(Id()))
    code = w.make('code', Enum2())
    typ = 'oadrCanceledPartyRegistration' if w.choice('typ', 2) == 1 else 'oadrResponse'
    c, net = make_client(w, answers=lambda service, t, p: (typ, {'response': {'response_code': code}}))
    c.registration_id = reg
    c.reports.append(1)
    c.scheduler.add_job(None, 'cron')
    other = w.make('asked', Id())
    if by_ven:
        w.call(c.cancel_party_registration)
        agreed = w.all_(reg is not None, typ == 'oadrCanceledPartyRegistration', code == 200)
    else:
        w.call(c.on_cancel_party_registration, {'registration_id': other, 'request_id': 'q'})
        agreed = w.all_(reg is not None, w.eq(reg, other))
    if agreed:
        w.check('no longer registered', c.registration_id is None)
        w.check('nothing is reported any more', w.all_(c.scheduler.cleared >= 1, len(c.scheduler.jobs) == 0))
    else:
        w.check('nothing changes', w.all_(w.eq(c.registration_id, reg), c.scheduler.cleared == 0, len(c.reports) == 1))
    if reg is None:
        w.check('nothing is sent', len(net.sent) == 0)
    else:
        w.check('one message', w.all_(len(net.sent) == 1, net.sent[0][0] == 'EiRegisterParty',
                                      w.eq(net.sent[0][2]['registration_id'], reg), net.sent[0][2]['ven_id'] == 'ven1'))
        if by_ven:
            w.check('a request', net.sent[0][1] == 'oadrCancelPartyRegistration')
        else:
            p = net.sent[0][2]
            w.check('an answer', w.all_(net.sent[0][1] == 'oadrCanceledPartyRegistration', p['response']['request_id'] == 'q'))
            w.check('which says whether it was for us', w.iff(p['response']['response_code'] == 200, agreed))
            w.check('or that the id is unknown', w.any_(agreed, p['response']['response_code'] == 452))
    check_sent(w, net)


def Enum2():
    return OneOf(Const(200), Const(452))


@contract('C26', targets=['client.OpenADRClient.create_opt', 'client.OpenADRClient.cancel_opt'], samples=300, lists=False)
def ven_opts(w):
    """Opts are sent as given; a cancelled opt is forgotten only when the VTN acknowledges."""
    ack = w.choice('ack', 2) == 1
    ack2 = w.choice('ack2', 2) == 1

    def answer(service, typ, p):
        if typ == 'oadrCreateOpt':
            return 'oadrCreatedOpt', ({'opt_id': p['opt_id']} if ack else {})
        return 'oadrCanceledOpt', ({'opt_id': p['opt_id']} if ack2 else {})

    c, net = make_client(w, answers=answer)
    oid = w.make('oid', Opt(Id()))
    typ = w.make('typ', Enum('optIn', 'optOut', 'maybe'))
    why = w.make('why', Enum('economic', 'emergency', 'because'))
    n = w.size('n', 3)
    earlier = [an_opt(w, 'earlier' + str(i)) for i in range(n)]
    w.assume(w.all_(True, *[w.not_(w.eq(earlier[i].opt_id, earlier[j].opt_id)) for i in range(n) for j in range(i)]))
    c.opts = list(earlier)
    for_event = w.flag('for_event')
    vav = None if for_event else w.new(objects.Vavailability, components=[])
    about = {'event_id': w.make('eid', Id()), 'modification_number': w.make('mod', Int(0, 10 ** 6))} if for_event else {'vavailability': vav}
    if w.flag('more'):
        about['market_context'] = w.make('mc', Id())
        about['request_id'] = w.make('rid', Id())
        about['signal_target_mrid'] = w.make('mrid', Enum('Thermostat', 'x-own'))
    o = w.try_call(c.create_opt, typ, why, [{'ven_id': 'ven1'}], opt_id=oid, **about)
    valid = w.all_(typ != 'maybe', why != 'because')
    w.check('invalid opts are refused', w.iff(o.is_a(ValueError), w.not_(valid)))
    if not valid:
        w.check('and not sent', w.all_(len(net.sent) == 0, len(c.opts) == n))
    else:
        w.check('sent once', w.all_(len(net.sent) == 1, net.sent[0][0] == 'EiOpt', net.sent[0][1] == 'oadrCreateOpt'))
        p = net.sent[0][2]
        w.check('as given', w.all_(w.eq(p['opt_type'], typ), w.eq(p['opt_reason'], why), p['ven_id'] == 'ven1',
                                   w.eq(p.get('event_id'), about.get('event_id')),
                                   (p.get('vavailability') is None) == for_event,
                                   w.eq(p.get('market_context'), about.get('market_context')),
                                   w.eq(p.get('signal_target_mrid'), about.get('signal_target_mrid')),
                                   p['targets'] == [{'ven_id': 'ven1'}]))
        if for_event:
            w.check('this version of the event', p['modification_number'] == about['modification_number'])
        if 'request_id' in about:
            w.check('its request id', w.eq(p['request_id'], about['request_id']))
        if oid is not None:
            w.check('its id', w.eq(p['opt_id'], oid))
        w.check('the result says whether it was acknowledged', w.eq(o.value, p['opt_id']) if ack else o.value is False)
        w.check('remembered', w.all_(len(c.opts) == n + 1, *[w.same(c.opts[i], earlier[i]) for i in range(n)]))
        new = c.opts[n]
        w.assume(w.all_(True, *[w.not_(w.eq(new.opt_id, e.opt_id)) for e in earlier]))
        known = list(c.opts)
        k = w.choice('which', 3)
        w.assume(k <= n)
        r = w.call(c.cancel_opt, known[k].opt_id)
        check_sent(w, net)
        w.check('cancelled with the VTN', w.all_(len(net.sent) == 2, net.sent[1][0] == 'EiOpt', net.sent[1][1] == 'oadrCancelOpt',
                                                 w.eq(net.sent[1][2]['opt_id'], known[k].opt_id), net.sent[1][2]['ven_id'] == 'ven1'))
        w.check('the result says whether it was acknowledged', r == ack2)
        rest = known[:k] + known[k + 1:] if ack2 else known
        w.check('only this one is forgotten, and only if the VTN agrees', w.all_(
            len(c.opts) == len(rest), *[w.same(c.opts[i], rest[i]) for i in range(len(rest)) if len(c.opts) == len(rest)]))


def an_opt(w, q):
    for_event = w.flag(q + '.for_event')
    return w.new(objects.Opt, opt_id=w.make(q + '.id', Id()), opt_type=w.make(q + '.type', Enum('optIn', 'optOut')), opt_reason='economic',
                 event_id=w.make(q + '.event', Id()) if for_event else None, modification_number=w.make(q + '.mod', Int(0, 3)),
                 targets=[], targets_by_type={}, vavailability=None if for_event else w.new(objects.Vavailability, components=[]),
                 market_context=None, signal_target_mrid=None, created_date_time=None)


@contract('C26', targets=['client.OpenADRClient.cancel_opt'], samples=200)
def unknown_opt(w):
    """An opt that the client does not know is not cancelled, and nothing is sent."""
    c, net = make_client(w, answers=lambda service, t, p: ('oadrCanceledOpt', {'opt_id': p['opt_id']}))
    n = w.size('n', 4)
    mine = [an_opt(w, 'o' + str(i)) for i in range(n)]
    c.opts = list(mine)
    oid = w.make('oid', Id())
    w.assume(w.all_(True, *[w.not_(w.eq(e.opt_id, oid)) for e in mine]))
    r = w.call(c.cancel_opt, oid)
    w.check('not cancelled', w.all_(r is False, len(net.sent) == 0, len(c.opts) == n))


@contract('C26', 'C29', targets=['client.OpenADRClient._poll'], samples=300)
def poll_dispatch(w):
    """What a poll brings is given to the part of the client that deals with it, once."""
    kinds = [None, 'oadrResponse', 'oadrDistributeEvent', 'oadrCreateReport', 'oadrRegisterReport',
             'oadrCancelPartyRegistration', 'oadrCancelReport', 'oadrRequestReregistration', 'oadrSomething', 'oadrUpdateReport']
    k = w.choice('kind', len(kinds))
    full = w.flag('full')
    payload = {'request_id': 'q', 'events': [1], 'report_requests': [2]} if full else {'request_id': 'q'}
    if w.flag('none'):
        payload['events'] = []
    c, net = make_client(w, answers=lambda service, t, p: (kinds[k], payload) if t == 'oadrPoll' else ('oadrResponse', {}))
    names = ['_on_event', 'create_report', 'on_cancel_party_registration', 'cancel_report', 'create_party_reregistration']
    want = {2: '_on_event', 3: 'create_report', 5: 'on_cancel_party_registration', 6: 'cancel_report',
            7: 'create_party_reregistration'}
    hs = {}
    for n in names:
        h = w.cb(n, mode='async')
        hs[n] = h
        setattr(c, n, h)
    w.call(c._poll)
    for n in names:
        hit = k in want and want[k] == n and (k != 2 or len(payload.get('events', [])) > 0) and (k != 3 or full)
        w.check('given to whom it concerns', len(hs[n].calls) == (1 if hit else 0))
        if hit and n != 'create_party_reregistration':
            w.check('with the message', w.same(hs[n].calls[0][0][0], payload))
    w.check('polled for this VEN', w.all_(net.sent[0][0] == 'OadrPoll', net.sent[0][2]['ven_id'] == 'ven1'))
    extra = 1 if k in (4, 7) else 0
    w.check('nothing else is sent', len(net.sent) == 1 + extra)
    check_sent(w, net)
    if k == 4:
        p = net.sent[1][2]
        w.check('nothing is requested of it', w.all_(net.sent[1][1] == 'oadrRegisteredReport', len(p['report_requests']) == 0,
                                                     p['response']['response_code'] == 200, p['response']['request_id'] == 'q'))
