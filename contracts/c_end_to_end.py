"""A VEN and a VTN of this library together: whatever one of them sends is really made, sent as text, read, and handled by the
other. Only the transport (HTTP, TLS, signatures) is left out, which the contracts of C06, C08, C09 and C31 are about."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
from functools import partial
from openleadr import enums, messaging, objects, utils
from openleadr.server import OpenADRServer
from openleadr.service import EventService, PollService, RegistrationService, ReportService
from contracts.c_client import make_client, Queue
from contracts.c_wire import Codec, ident, seconds


class World:
    """the wire between the client and the services of the server"""
    def __init__(self, services):
        self.services = services
        self.log = []

    async def perform(self, service, message):
        typ, payload = messaging.parse_message(message)
        rtyp, rpayload = await self.services[service].handle_message(typ, payload)
        answer = messaging.create_message(rtyp, **rpayload)
        got = messaging.parse_message(answer)
        self.log.append((typ, payload, got[0], got[1]))
        return got

    def of(self, typ):
        return [x for x in self.log if x[0] == typ]


class Ids:
    """every id is new, and text"""
    def __init__(self):
        self.n = 0

    def next(self):
        self.n = self.n + 1
        return f'gen-{self.n}'


def together(w):
    """a server, a client, and the wire"""
    if w.symbolic:
        cd = Codec()
        w.modular('openleadr.utils.timedeltaformat', cd.fmt_duration)
        w.modular('openleadr.utils.parse_duration', cd.parse_duration)
        w.modular('openleadr.utils.datetimeformat', cd.fmt_time)
        w.modular('openleadr.utils.parse_datetime', cd.parse_time)
        w.modular('openleadr.utils.generate_id', Ids().next)
    w.modular('openleadr.hooks.call', lambda hook_point, *args, **k: None)
    ev = EventService('VTN')
    rp = ReportService('VTN')
    po = PollService('VTN', event_service=ev, report_service=rp)
    rg = RegistrationService('VTN', poll_freq=timedelta(seconds=10))
    server = w.new(OpenADRServer, services={'event_service': ev, 'poll_service': po, 'report_service': rp, 'registration_service': rg})
    wire = World({'EiEvent': ev, 'OadrPoll': po, 'EiReport': rp, 'EiRegisterParty': rg})
    c, net = make_client(w)
    c._create_message = messaging.create_message
    c._perform_request = wire.perform
    return server, c, wire


@contract('C03', 'C05', 'C15', targets=['server.OpenADRServer.add_event', 'server.OpenADRServer.cancel_event',
                                        'service.poll_service.PollService.poll', 'service.event_service.EventService.request_event',
                                        'service.event_service.EventService.created_event', 'client.OpenADRClient._poll',
                                        'client.OpenADRClient._on_event'], samples=300, budget=200)
def event_there_and_back(w):
    """An event that the VTN adds reaches the VEN's handler once, and its decision the VTN's callback once; so does its cancellation."""
    now = w.freeze()
    server, c, wire = together(w)
    decision = w.make('decision', Enum('optIn', 'optOut'))
    on_event = w.cb('on_event', ret=Const(decision), mode='sync')
    on_update = w.cb('on_update', ret=Const('optIn'), mode='sync')
    c.on_event = on_event
    c.on_update_event = on_update
    answered = w.cb('answered', mode='sync', signature=('ven_id', 'event_id', 'opt_type'))
    delivered = w.cb('delivered', mode='sync')
    start = w.make('start', DT())
    dur = seconds(w, 'dur', 86400)
    ramp = w.make('ramp', Opt(Dur(1, 86400, whole=True)))
    w.assume(dur > timedelta(0))
    ended = now >= start + dur
    level = w.make('level', Int(0, 3))
    eid = ident(w, 'event')
    need = w.make('need', Enum('always', 'never'))
    w.call(server.add_event, ven_id='ven1', signal_name='SIMPLE', signal_type='level', event_id=eid, callback=answered,
           delivery_callback=delivered, intervals=[{'dtstart': start, 'duration': dur, 'signal_payload': level}],
           target={'ven_id': 'ven1'}, response_required=need, ramp_up_period=ramp)
    w.call(c._poll)
    w.check('the handler is asked once', len(on_event.calls) == 1)
    w.check('the VTN knows that it was delivered', len(delivered.calls) == 1)
    e = on_event.calls[0][0][0]
    w.check('about this event', w.all_(w.eq(e['event_descriptor']['event_id'], eid), e['event_descriptor']['modification_number'] == 0))
    w.check('over the period of its intervals', w.all_(w.eq(e['active_period']['dtstart'], start), w.eq(e['active_period']['duration'], dur)))
    s = e['event_signals'][0]
    w.check('with its signal', w.all_(len(e['event_signals']) == 1, s['signal_name'] == 'SIMPLE', s['signal_type'] == 'level', len(s['intervals']) == 1))
    w.check('and its level', w.all_(w.eq(s['intervals'][0]['signal_payload'], level), w.eq(s['intervals'][0]['duration'], dur)))
    due = w.all_(need == 'always', w.not_(ended))
    if due:
        w.check('the callback is told once', len(answered.calls) == 1)
        k = answered.calls[0][1]
        w.check('who decided what about which event', w.all_(w.eq(k['ven_id'], 'ven1'), w.eq(k['event_id'], eid), w.eq(k['opt_type'], decision)))
    else:
        w.check('the callback is told nothing', len(answered.calls) == 0)
    near = False if ramp is None else now >= start - ramp
    status = e['event_descriptor']['event_status']
    w.check('the status is that of the time', status == w.ite(ended, 'completed', w.ite(now >= start, 'active', w.ite(near, 'near', 'far'))))
    w.call(c._event_status_log)
    w.check('the VEN agrees on the status', e['event_descriptor']['event_status'] == status)
    w.call(c._poll)
    w.check('nothing is sent twice', w.all_(len(on_event.calls) == 1, len(on_update.calls) == 0, len(answered.calls) == (1 if due else 0)))
    if ended:
        return
    w.call(server.cancel_event, 'ven1', eid)
    w.call(c._poll)
    w.check('the VEN is told that it is cancelled', w.all_(len(on_event.calls) == 1, len(on_update.calls) == 1))
    e = on_update.calls[0][0][0]
    w.check('this event', w.all_(w.eq(e['event_descriptor']['event_id'], eid), e['event_descriptor']['event_status'] == 'cancelled',
                                 e['event_descriptor']['modification_number'] == 1))
    w.check('and remembers it once', len(c.received_events) == 1)
    w.check('the VTN has no more of it once the VEN confirmed', len(server.services['event_service'].events['ven1']) == (0 if due else 1))
    w.call(c._event_cleanup)
    w.check('the VEN forgets it', len(c.received_events) == 0)


@contract('C11', 'C12', 'C13', 'C14', targets=['client.OpenADRClient.add_report', 'client.OpenADRClient.register_reports',
                                               'service.report_service.ReportService.register_report', 'client.OpenADRClient.create_report',
                                               'service.report_service.ReportService.created_report', 'client.OpenADRClient.update_report',
                                               'client.OpenADRClient._report_queue_worker',
                                               'service.report_service.ReportService.update_report'], samples=200, budget=250)
def reports_there_and_back(w):
    """What the VEN offers is what the VTN is asked about; of what it wants every value reaches its callback, at the interval
    it asked for, and nothing else does."""
    now = w.freeze()
    server, c, wire = together(w)
    names = ('a', 'b')
    n = len(names)
    vals = [[w.make('v' + x + str(j), Int(-1000, 1000)) for j in range(2)] for x in names]
    asked = {}
    def source(i):
        def read():
            k = asked.get(i, 0)
            asked[i] = k + 1
            return vals[i][k]
        return read
    apart = w.flag('apart')
    kinds = ['voltage' if w.flag('known quantity') else 'Soil moisture', 'power_real']
    for i in range(n):
        c.add_report(source(i), resource_id='res ' + names[i], measurement=kinds[i], r_id=names[i], unit='W' if i == 1 else 'V',
                     scale='k' if i == 1 else None, sampling_rate=timedelta(seconds=10), report_duration=timedelta(hours=1),
                     report_dtstart=now, report_specifier_id='spec ' + names[i] if apart else 'spec')
    sinks = [w.cb('sink ' + x, mode='sync') for x in names]
    wish = [w.choice('wish ' + x, 3) for x in names]
    seen = []
    def on_register_report(ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval):
        seen.append((ven_id, resource_id, measurement, unit, scale, min_sampling_interval, max_sampling_interval))
        i = 0 if resource_id == 'res a' else 1
        if wish[i] == 0:
            return None
        if wish[i] == 1:
            return sinks[i], timedelta(seconds=10)
        return sinks[i], timedelta(seconds=10), timedelta(seconds=20)
    server.services['report_service'].on_register_report = on_register_report
    w.call(c.register_reports, c.reports)
    w.check('asked about every datapoint', len(seen) == n)
    for i in range(n):
        o = seen[i]
        w.check('as it was offered', w.all_(o[0] == 'ven1', o[1] == 'res ' + names[i], o[5] == timedelta(seconds=10), o[6] == timedelta(seconds=10)))
        w.check('with its quantity', w.all_(o[2] == ('RealPower' if i == 1 else 'Voltage' if kinds[0] == 'voltage' else kinds[0]),
                                            o[3] == ('W' if i == 1 else 'V'), o[4] == ('k' if i == 1 else 'none')))
    wanted = [i for i in range(n) if wish[i] > 0]
    jobs = c.scheduler.jobs
    groups = len(wanted) if apart else (1 if len(wanted) > 0 else 0)
    w.check('one job for each report that is wanted', len(jobs) == groups)
    if len(wanted) > 0:
        confirmed = [x for x in wire.of('oadrCreatedReport')]
        w.check('the VEN confirms', len(confirmed) == 1)
        known = server.services['report_service'].created_reports['ven1']
        asked_for = [r.report_request_id for r in server.services['report_service'].requested_reports['ven1']]
        w.check('the requests of the VTN', w.all_(len(known) == groups, known == asked_for))
    # without an interval of its own, a report is sent with every sampling
    def interval(i):
        return wish[i] if apart else wish[wanted[-1]]
    for j in range(2):
        for job in jobs:
            w.call(job.func)
        w.call(c._report_queue_worker)
        for i in range(n):
            got = sinks[i].calls
            if i not in wanted:
                w.check('nothing of what is not wanted', len(got) == 0)
            elif interval(i) == 1:
                w.check('sent with every sampling', len(got) == j + 1)
                w.check('its value', w.eq(got[j][0][0], [(now, vals[i][j])]))
            elif j == 0:
                w.check('kept until the interval is over', len(got) == 0)
            else:
                w.check('sent once', len(got) == 1)
                w.check('with all values, in order', w.eq(got[0][0][0], [(now, vals[i][0]), (now, vals[i][1])]))
    w.check('nothing is left to send', w.all_(c.pending_reports.empty(), len(c.incomplete_reports) == 0))
    for i in range(n):
        w.check('what is not wanted is not even measured', asked.get(i, 0) == (2 if i in wanted else 0))


@contract('C10', 'C26', targets=['client.OpenADRClient.create_party_registration', 'client.OpenADRClient.cancel_party_registration',
                                 'client.OpenADRClient.create_party_reregistration', 'client.OpenADRClient.on_cancel_party_registration',
                                 'service.registration_service.RegistrationService.create_party_registration',
                                 'service.registration_service.RegistrationService.cancel_party_registration',
                                 'service.poll_service.PollService.poll'], samples=200, budget=200)
def registration_there_and_back(w):
    """A VEN has the identity the VTN gave it for as long as both of them want it to."""
    now = w.freeze()
    server, c, wire = together(w)
    rg = server.services['registration_service']
    ven, reg, ven2, reg2 = ident(w, 'ven'), ident(w, 'reg'), ident(w, 'ven2'), ident(w, 'reg2')
    w.assume(w.not_(w.eq(reg, reg2)))
    freq = seconds(w, 'freq', 86400)
    rg.poll_freq = freq
    c.ven_id = None
    c.registration_id = None
    refused = w.choice('refused', 3)
    answers = [(ven, reg) if refused == 0 else (False, None)[refused - 1], (ven2, reg2)]
    asked = []
    def register(registration_info):
        asked.append(registration_info)
        return answers[len(asked) - 1]
    rg.on_create_party_registration = register
    gone = w.cb('gone', mode='sync')
    rg.on_cancel_party_registration = gone
    w.call(c.create_party_registration, xml_signature=w.flag('xs'), report_only=w.flag('ro'))
    w.check('the application is asked', len(asked) == 1)
    w.check('about this VEN', w.all_(asked[0]['ven_name'] == 'ven', asked[0].get('ven_id') is None,
                                     asked[0]['profile_name'] == '2.0b', asked[0]['transport_name'] == 'simpleHttp'))
    if refused:
        w.check('a VEN that is refused is not registered', w.all_(c.registration_id is None, c.ven_id is None))
        w.call(c.cancel_party_registration)
        w.check('and has nothing to cancel', len(gone.calls) == 0)
        return
    w.check('the VEN is who the VTN says', w.all_(w.eq(c.ven_id, ven), w.eq(c.registration_id, reg), w.eq(c.poll_frequency, freq)))
    how = w.choice('how', 4)
    po = server.services['poll_service']
    po.polling_method = 'external'
    if how == 0:
        w.call(c.cancel_party_registration)
        w.check('the application is told', len(gone.calls) == 1)
        w.check('who leaves', w.all_(w.eq(gone.calls[0][0][0]['registration_id'], reg), w.eq(gone.calls[0][0][0]['ven_id'], ven)))
        w.check('the VEN is no longer registered', c.registration_id is None)
        return
    if how == 1:
        po.on_poll = lambda ven_id: ('oadrRequestReregistration', {'ven_id': ven_id})
        c.loop = None
        c.registered = []
        async def offer(reports):
            c.registered.append(reports)
        c.register_reports = offer
        w.call(c._poll)
        w.check('the VEN registers again', w.all_(len(asked) == 2, w.eq(asked[1]['registration_id'], reg), w.eq(asked[1]['ven_id'], ven)))
        w.check('and is who the VTN says now', w.all_(w.eq(c.ven_id, ven2), w.eq(c.registration_id, reg2)))
        w.check('it offers its reports again', len(c.registered) == 1)
        w.check('and asks for its events', len(wire.of('oadrRequestEvent')) == 1)
        return
    mine = how == 2
    po.on_poll = lambda ven_id: ('oadrCancelPartyRegistration', {'ven_id': ven_id, 'request_id': 'c1', 'registration_id': reg if mine else reg2})
    wire.services['EiRegisterParty'].handlers['oadrCanceledPartyRegistration'] = w.cb('confirmed', ret=Const(None), mode='async')
    job = c.scheduler.add_job(None, 'interval')
    w.call(c._poll)
    told = wire.of('oadrCanceledPartyRegistration')
    w.check('the VEN answers', w.all_(len(told) == 1, told[0][1]['ven_id'] == ven, told[0][1]['registration_id'] == reg))
    w.check('whether it agrees', told[0][1]['response']['response_code'] == (200 if mine else 452))
    w.check('this request', w.eq(told[0][1]['response']['request_id'], wire.of('oadrPoll')[0][3]['request_id']))
    w.check('a registration that was cancelled is over, any other goes on', w.iff(c.registration_id is None, mine))
    w.check('with all that was scheduled', len(c.scheduler.jobs) == (0 if mine else 1))


class Body:
    """a request as the web server hands it on"""
    def __init__(self, content, content_type='application/xml'):
        self.content = content
        self.headers = {'content-type': content_type}
        self.secure = False

    async def read(self):
        return self.content


@contract('C08', 'C09', targets=['messaging.validate_xml_schema', 'service.vtn_service.VTNService.handler',
                                 'client.OpenADRClient._perform_request'], samples=150, concrete_only=True)
def schema_enforced(w):
    """Bounded: real messages, whole or damaged, through the real XML library and schema: the VTN answers 400 to what does not
    conform, and to the VEN such an answer is no answer."""
    from lxml import etree
    from contracts.c_client_net import Session, Reply
    asked = w.choice('message', 3)
    text = [lambda: messaging.create_message('oadrPoll', ven_id='v1'),
            lambda: messaging.create_message('oadrRequestEvent', ven_id='v1', request_id='r1', reply_limit=3),
            lambda: messaging.create_message('oadrQueryRegistration', request_id='r1')][asked]()
    service = [lambda: PollService('VTN'), lambda: EventService('VTN'), lambda: RegistrationService('VTN', timedelta(seconds=10))][asked]()
    called = []

    async def handle(message_type, payload):
        called.append(message_type)
        return 'oadrResponse', {'response': {'response_code': 200, 'response_description': 'OK', 'request_id': 'r1'}}
    service.handle_message = handle
    service._create_message = messaging.create_message
    kind = w.choice('damage', 7)
    content = text.encode()
    tree = etree.fromstring(content)
    leaf = tree[0][0]
    if kind == 1: leaf.tag = leaf.tag + 'X'
    if kind == 2: etree.SubElement(leaf, '{http://docs.oasis-open.org/ns/energyinterop/201110}unknown').text = 'x'
    if kind == 3: leaf.append(tree[0].__copy__())
    if kind == 4: tree.tag = '{http://openadr.org/oadr-2.0b/2012/07}oadrNothing'
    if kind in (1, 2, 3, 4): content = etree.tostring(tree)
    if kind == 5: content = content[:w.make('cut', Int(0, len(content) - 2))]
    if kind == 6: content = [b'', b'{}', b'<a/>', b'hello'][w.choice('other', 4)]
    o = w.try_call(messaging.validate_xml_schema, content)
    w.check('what conforms is accepted, nothing else', (o.raised is None) == (kind == 0))
    r = w.call(service.handler, Body(content))
    w.check('and handled', called == (['oadrPoll', 'oadrRequestEvent', 'oadrQueryRegistration'][asked:asked + 1] if kind == 0 else []))
    w.check('or refused', r.status == (200 if kind == 0 else 400))
    c, net = make_client(w)
    del c._perform_request
    c.client_session = Session(Reply(200, content), None)
    t, p = w.call(c._perform_request, 'OadrPoll', '<x/>')
    if kind: w.check('no answer', t is None and len(p) == 0)
    else: w.check('an answer', t == called[0])
