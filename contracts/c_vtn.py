"""C09 the VTN's HTTP handler: dispatch and error mapping; C06 the authentication gate in front of the handlers."""
from pyvc.api import *
from http import HTTPStatus
from lxml.etree import XMLSyntaxError
from signxml.exceptions import InvalidSignature
from datetime import timedelta
from openleadr import errors, messaging, utils, enums, objects
from openleadr.service import VTNService, EventService, RegistrationService, ReportService, PollService
from contracts.c_auth import Request, make_cert, crypto, Tree, CERTS

VTN = 'vtn'


class Response:
    """aiohttp.web.Response"""
    def __init__(self, text=None, status=200, content_type=None, **kw):
        self.text = text
        self.status = status
        self.content_type = content_type


class BadXml(XMLSyntaxError):
    def __init__(self):
        pass

    def __str__(self):
        return 'bad xml'


class Message:
    def __init__(self, message_type, payload):
        self.message_type = message_type
        self.payload = payload


class Sent:
    """What the service put on the wire."""
    def __init__(self):
        self.messages = []

    def create(self, message_type, **payload):
        self.messages.append((message_type, payload))
        return 'XML'


class Custom(Exception):
    pass


def raiser(exc):
    def run(*a, **k):
        raise exc
    return run


def wire(w, service, message_type, payload, tree=None, xml_ok=True, hook=None):
    """The service receives this message; returns what it sends."""
    w.patch('aiohttp.web.Response', Response)
    sent = Sent()
    service._create_message = sent.create

    def validate(content):
        if not xml_ok:
            raise BadXml()
        return tree

    w.stub('openleadr.messaging.validate_xml_schema', validate)
    w.stub('openleadr.messaging.parse_message', lambda data: (message_type, payload))
    if hook is not None:
        w.stub('openleadr.hooks.call', hook)
    else:
        w.modular('openleadr.hooks.call', lambda hook_point, *a, **k: None)
    return sent


TYPES = ('oadrPoll', 'oadrRequestEvent', 'oadrCreatePartyRegistration', 'oadrQueryRegistration', 'oadrCreatedEvent',
         'oadrUpdateReport')
XML = {'content-type': 'application/xml'}


def make_service(w, types, handle):
    s = VTNService(VTN)
    s.__service_name__ = 'EiTest'
    for t in types:
        s.handlers[t] = handle
    return s


@contract('C09', targets=['service.vtn_service.VTNService.handler'], samples=400, budget=120)
def handler_gates(w):
    """No handler runs for a message that is malformed, meant for another VTN or from an unknown VEN."""
    typ = w.make('type', Enum(*TYPES))
    ven = w.make('ven', Opt(Id(empty=True)))
    vtn = w.make('vtn', OneOf(Const('absent'), Const(None), Id(pool=[VTN, 'other'])))
    has_ven = w.choice('has_ven', 2) == 1
    payload = {'request_id': w.make('rid', Opt(Id()))}
    rid = payload['request_id']
    if has_ven:
        payload['ven_id'] = ven
    if vtn != 'absent':
        payload['vtn_id'] = vtn
    h = w.cb('handle', fn=lambda payload: ('oadrResponse', {}))
    s = make_service(w, TYPES, h)
    lookup_kind = w.choice('lookup', 4)
    info = [None, {}, {'registration_id': None, 'ven_id': ven}, {'registration_id': 'reg1', 'ven_id': ven}][lookup_kind]
    has_lookup = w.choice('has_lookup', 2) == 1
    lookup = w.cb('ven_lookup', fn=lambda ven_id: info)
    if has_lookup:
        s.ven_lookup = lookup
    xml_ok = w.flag('xml_ok')
    sent = wire(w, s, typ, payload, xml_ok=xml_ok)
    ct = w.choice('ct', 5)
    headers = [{'content-type': 'application/xml'}, {'content-type': 'Application/XML; charset=utf-8'},
               {'content-type': 'text/plain'}, {}, {'content-type': 'text/xml; application/xml'}][ct]
    r = w.call(s.handler, Request(False, None, headers, b'<x/>'))
    called = len(h.calls) > 0
    right_vtn = w.any_(vtn == 'absent', vtn is None, vtn == VTN)
    registering = typ in ('oadrCreatePartyRegistration', 'oadrQueryRegistration')
    unknown = not registering and has_ven and has_lookup and lookup_kind < 3
    if ct > 1:
        w.check('wrong content type: 400', w.all_(r.status == 400, not called))
    elif not xml_ok:
        w.check('invalid XML: 400', w.all_(r.status == 400, not called))
    elif not right_vtn:
        w.check('message for another VTN: not handled', not called)
        w.check('one error message', w.all_(r.status == 200, len(sent.messages) == 1))
        w.check('invalid id', sent.messages[0][1]['response']['response_code'] == enums.STATUS_CODES.INVALID_ID)
    elif unknown:
        w.check('unknown VEN: not handled', not called)
        w.check('unknown VEN: reregistration is requested', w.all_(r.status == 200, len(sent.messages) == 1,
                sent.messages[0][0] == 'oadrRequestReregistration', sent.messages[0][1]['ven_id'] == ven))
    else:
        w.check('handled once', w.all_(r.status == 200, len(h.calls) == 1, len(h.finished) == 1))
        w.check('one answer', len(sent.messages) == 1)
        p = sent.messages[0][1]
        w.check('the answer says OK', w.all_(p['response']['response_code'] == 200, w.eq(p['response']['request_id'], rid)))
        w.check('from this VTN', p['vtn_id'] == VTN)
        w.check('to this VEN', w.eq(p.get('ven_id'), ven if has_ven else None))
        w.check('content type', r.content_type == 'application/xml')
        w.check('the text is the message', r.text == 'XML')
    if not called:
        w.check('an answer is given', r.status in (200, 400))


@contract('C09', targets=['service.vtn_service.VTNService.handler', 'service.vtn_service.VTNService.error_response'],
          samples=300)
def handler_errors(w):
    """Whatever the handler raises is turned into the answer the protocol defines for it."""
    typ = w.make('type', Enum(*TYPES))
    payload = {'request_id': 'r', 'ven_id': 'ven1'}
    k = w.choice('error', 8)
    exc = [errors.OutOfSequenceError(), errors.NotAllowedError(description='no'), errors.HTTPError(status=418, description='tea'),
           errors.FingerprintMismatch('fp'), InvalidSignature('bad'), Custom('oops'), errors.RequestReregistration('ven9'),
           errors.SendEmptyHTTPResponse()][k]
    later = w.flag('async')

    async def failing():
        raise exc

    def handle(payload):
        if later:
            return failing()
        raise exc

    s = make_service(w, TYPES, handle)
    sent = wire(w, s, typ, payload)
    r = w.call(s.handler, Request(False, None, XML))
    if k < 2:
        w.check('protocol error: one OpenADR message', w.all_(r.status == 200, len(sent.messages) == 1))
        t, p = sent.messages[0]
        w.check('with the code of the error', p['response']['response_code'] == exc.response_code)
        w.check('and its description', p['response']['response_description'] == exc.response_description)
        w.check('of the right type', t == ('oadrDistributeEvent' if typ == 'oadrRequestEvent' else 'oadrResponse'))
        if t == 'oadrDistributeEvent':
            w.check('without events', w.all_(len(p['events']) == 0, p['vtn_id'] == VTN))
    elif k == 2:
        w.check('HTTP error: its status', w.all_(r.status == 418, r.text == 'tea'))
    elif k in (3, 4):
        w.check('authentication failure: 403', r.status == 403)
    elif k == 5:
        w.check('anything else: 500', r.status == 500)
    elif k == 6:
        w.check('reregistration', w.all_(r.status == 200, len(sent.messages) == 1,
                                         sent.messages[0][0] == 'oadrRequestReregistration',
                                         sent.messages[0][1]['ven_id'] == 'ven9'))
    else:
        w.check('empty response', w.all_(r.status == 200, r.text == '', len(sent.messages) == 0))
    if k in (2, 3, 4, 5, 7):
        w.check('no OpenADR message', len(sent.messages) == 0)
    else:
        w.check('the answer is that message', w.all_(r.text == 'XML', r.content_type == 'application/xml'))


@contract('C09', targets=['service.vtn_service.VTNService.handle_message'], samples=300)
def dispatch(w):
    """handle_message gives the message to the handler of its type and completes the answer."""
    n = w.choice('known', 3)
    typ = ['oadrA', 'oadrB', 'oadrOther'][n]
    kind = w.choice('result', 5)
    pay = {'x': 1, 'ven_id': w.make('given', Opt(Id()))}
    given = pay['ven_id']
    data = w.new(objects.ReportPayload, r_id='q', value=w.make('value', Real()), confidence=None, accuracy=None)
    result = [None, ('oadrX', pay), ('oadrX', None), ('oadrX', {}), ('oadrX', data)][kind]
    a = w.cb('a', fn=lambda payload: result)
    b = w.cb('b', fn=lambda payload: result)
    s = VTNService(VTN)
    s.__service_name__ = 'EiTest'
    s.handlers['oadrA'] = a
    s.handlers['oadrB'] = b
    w.modular('openleadr.hooks.call', lambda hook_point, *args, **k: None)
    rid = w.make('rid', Opt(Id()))
    payload = {'request_id': rid, 'ven_id': 'ven1'}
    t, p = w.call(s.handle_message, typ, payload)
    w.check('the handler of this type is called', len(a.calls) == (1 if n == 0 else 0))
    w.check('and no other', len(b.calls) == (1 if n == 1 else 0))
    if n < 2:
        c = a if n == 0 else b
        w.check('with the payload', w.all_(len(c.calls[0][0]) == 1, w.same(c.calls[0][0][0], payload)))
        w.check('its coroutine is awaited', len(c.finished) == 1)
        w.check('type of the answer', t == ('oadrResponse' if kind == 0 else 'oadrX'))
        w.check('OK', w.all_(p['response']['response_code'] == 200, w.eq(p['response']['request_id'], rid)))
        w.check('vtn_id', p['vtn_id'] == VTN)
        w.check('ven_id', w.eq(p['ven_id'], given if kind == 1 and given is not None else 'ven1'))
        w.check('fresh request id', isinstance(p['request_id'], str))
        w.check('which is all right', p['response']['response_description'] == 'OK')
        if kind == 1:
            w.check('content of the answer', p['x'] == 1)
        if kind == 4:
            w.check('content of the answer', w.all_(p['r_id'] == 'q', p['value'] == data.value))
    else:
        w.check('unknown type is a compliance error',
                w.all_(t == 'oadrResponse', p['response']['response_code'] == enums.STATUS_CODES.COMPLIANCE_ERROR))


@contract('C09', targets=['service.vtn_service.VTNService.handler'], samples=50)
def empty_response(w):
    """An oadrResponse needs no answer."""
    h = w.cb('h', fn=lambda p: None)
    s = make_service(w, ('oadrResponse',), h)
    sent = wire(w, s, 'oadrResponse', {'request_id': 'r'})
    r = w.call(s.handler, Request(w.flag('secure'), None, XML))
    w.check('empty 200', w.all_(r.status == 200, r.text == '', len(sent.messages) == 0, len(h.calls) == 0))


@contract('C06', targets=['service.vtn_service.VTNService.handler', 'messaging.authenticate_message'], samples=400, budget=100)
def handler_authenticates(w):
    """Over TLS, no handler ever runs for a message that fails authentication; and only a query or a first
    registration may leave out who it is from."""
    now = w.freeze()
    crypto(w)
    typ = w.make('type', Enum('oadrPoll', 'oadrCreatePartyRegistration', 'oadrQueryRegistration', 'oadrCancelPartyRegistration',
                               'oadrUpdateReport', 'oadrRequestEvent'))
    ven = w.make('ven', Opt(Id(empty=True)))      # an empty element is read as None
    has_ven = w.choice('has_ven', 2) == 1
    payload = {'request_id': 'r'}
    if has_ven:
        payload['ven_id'] = ven
    conn = make_cert(w, 'conn') if w.choice('conn?', 2) == 1 else None
    sig = make_cert(w, 'sig')
    tree = Tree(sig, True, None, None)
    expected = w.make('expected', Id(pool=['0', '1', '2']))
    if not w.symbolic:
        expected = utils.certificate_fingerprint_from_der(CERTS[int(expected) if expected in ('0', '1', '2') else 0])
    secure = w.choice('secure', 2) == 1
    verify = w.flag('verify')
    valid = w.flag('valid')

    def check_signature(xml_tree, cert_fingerprint=None):
        if not valid:
            raise InvalidSignature('bad')

    w.stub('openleadr.messaging.validate_xml_signature', check_signature)
    mode = w.choice('mode', 3)
    h = w.cb('handle', fn=lambda payload: ('oadrResponse', {}))
    s = make_service(w, TYPES + ('oadrCancelPartyRegistration',), h)
    s.verify_message_signatures = verify
    if mode == 1:
        s.fingerprint_lookup = w.cb('fingerprint_lookup', fn=lambda ven_id: expected)
    elif mode == 2:
        s.ven_lookup = w.cb('ven_lookup', fn=lambda ven_id: {'registration_id': 'reg', 'fingerprint': expected})
    sent = wire(w, s, typ, payload, tree=tree)
    r = w.call(s.handler, Request(secure, conn, XML))
    called = len(h.calls) > 0
    guarded = secure and mode > 0
    anonymous = not has_ven and w.any_(typ == 'oadrCreatePartyRegistration', typ == 'oadrQueryRegistration')
    if guarded and not has_ven and not anonymous:
        w.check('nobody in particular is not let in', not called)
        code = sent.messages[0][1]['response']['response_code'] if len(sent.messages) > 0 else 0
        w.check('refused', w.any_(r.status == 403, code == enums.STATUS_CODES.NOT_REGISTERED_OR_AUTHORIZED))
    elif guarded and not anonymous:
        ok = w.all_(conn is not None, conn is not None and conn.fp == expected,
                    w.any_(not verify, w.all_(sig.fp == expected, valid)))
        w.check('handled exactly if authentic', w.iff(called, ok))
        if not called:
            code = sent.messages[0][1]['response']['response_code'] if len(sent.messages) > 0 else 0
            w.check('refused', w.any_(r.status == 403, code == enums.STATUS_CODES.NOT_REGISTERED_OR_AUTHORIZED))
    else:
        w.check('handled', called)
    if called and secure and typ == 'oadrCreatePartyRegistration':
        w.check('the handler can see the fingerprint of the connection',
                w.eq(h.calls[0][0][0]['fingerprint'], conn.fp if conn is not None else None))
    elif called:
        w.check('no fingerprint is added', 'fingerprint' not in h.calls[0][0][0])


@contract('C28', 'C09', targets=['service.vtn_service.VTNService.handler', 'service.vtn_service.VTNService.handle_message'], samples=300)
def server_hook_points(w):
    """Every request passes the hook points it gets to, once each, in order, with the data of that point; and every
    answer passes the last one."""
    seen = []

    def hook(hook_point, *args, **kwargs):
        seen.append((hook_point, args))

    typ = w.make('type', Enum('oadrPoll', 'oadrCreatedEvent'))
    payload = {'request_id': 'r', 'ven_id': 'ven1'}
    k = w.choice('what', 8)
    exc = [None, None, None, errors.OutOfSequenceError(), errors.HTTPError(status=418, description='tea'), Custom('oops'), None, None][k]

    def handle(payload):
        if exc is not None:
            raise exc
        return 'oadrAnswer', {'x': 1}

    if k == 6: payload['vtn_id'] = 'other'
    if k == 7: typ = 'oadrResponse'
    s = make_service(w, ('oadrPoll', 'oadrCreatedEvent'), handle)
    sent = wire(w, s, typ, payload, xml_ok=k != 1, hook=hook)
    body = w.make('body', Enum('<x/>', '<y/>'))
    r = w.call(s.handler, Request(False, None, {'content-type': 'text/plain'} if k == 0 else XML, body))
    points = [p for p, a in seen]
    handled = k >= 2 and k <= 5
    want = (['before_parse'] if k > 0 else []) + (['before_handle'] if handled else []) + (['after_handle'] if k == 2 else []) + ['before_respond']
    w.check('the hook points in order', points == want)
    if points == want:
        at = {p: a for p, a in seen}
        w.check('the answer', w.all_(len(at['before_respond']) == 1, w.eq(at['before_respond'][0], r.text)))
        if k > 0: w.check('what came in', w.eq(at['before_parse'], (body,)))
        if handled: w.check('what is handled', w.all_(len(at['before_handle']) == 2, at['before_handle'][0] == typ,
                                                      w.same(at['before_handle'][1], payload)))
        if k == 2: w.check('how it is answered', w.all_(len(at['after_handle']) == 2, at['after_handle'][0] == 'oadrAnswer',
                                                        at['after_handle'][1]['x'] == 1))


@contract('C09', 'C29', targets=['service.vtn_service.VTNService.__init__'], samples=30)
def message_types(w):
    """Each service has a handler for the messages the protocol sends to it, and for no others."""
    ev = w.call(EventService, 'vtn')
    w.check('events', w.all_(sorted(ev.handlers) == ['oadrCreatedEvent', 'oadrRequestEvent'], ev.handlers['oadrRequestEvent'] == ev.request_event,
                             ev.handlers['oadrCreatedEvent'] == ev.created_event))
    po = w.call(PollService, 'vtn', event_service=ev)
    w.check('poll', w.all_(sorted(po.handlers) == ['oadrPoll'], po.handlers['oadrPoll'] == po.poll))
    re = w.call(RegistrationService, 'vtn', poll_freq=timedelta(seconds=10))
    w.check('registration', w.all_(sorted(re.handlers) == ['oadrCancelPartyRegistration', 'oadrCreatePartyRegistration', 'oadrQueryRegistration'],
                                   re.handlers['oadrQueryRegistration'] == re.query_registration,
                                   re.handlers['oadrCreatePartyRegistration'] == re.create_party_registration,
                                   re.handlers['oadrCancelPartyRegistration'] == re.cancel_party_registration))
    rp = w.call(ReportService, 'vtn')
    w.check('reports', w.all_(rp.handlers['oadrRegisterReport'] == rp.register_report, rp.handlers['oadrUpdateReport'] == rp.update_report,
                              rp.handlers['oadrCreatedReport'] == rp.created_report, rp.handlers['oadrRegisteredReport'] == rp.registered_report))
    for s in (ev, po, re, rp):
        w.check('of this VTN', s.vtn_id == 'vtn')


@contract('C09', targets=['service.vtn_service.VTNService.handler', 'service.vtn_service.VTNService.handle_message',
                          'service.vtn_service.VTNService.error_response'], samples=100)
def wrong_service(w):
    """A message sent to a service that does not handle it gets a compliance error, whatever it is."""
    typ = w.make('type', Id(pool=['oadrPoll', 'oadrCreateOpt'], avoid=('oadrResponse', 'oadrCreatedEvent')))
    h = w.cb('h', fn=lambda payload: ('oadrResponse', {}))
    s = make_service(w, ('oadrCreatedEvent',), h)
    ven = w.make('ven', Id())
    sent = wire(w, s, typ, {'request_id': 'r', 'ven_id': ven})
    r = w.call(s.handler, Request(False, None, XML))
    w.check('one answer', w.all_(r.status == 200, r.text == 'XML', r.content_type == 'application/xml', len(sent.messages) == 1))
    t, p = sent.messages[0]
    w.check('a compliance error', w.all_(t == 'oadrResponse', p['response']['response_code'] == enums.STATUS_CODES.COMPLIANCE_ERROR))
    w.check('between us', w.all_(p['vtn_id'] == VTN, p['ven_id'] == ven))
    w.check('not handled', len(h.calls) == 0)
