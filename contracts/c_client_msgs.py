"""C33 what the VEN sends to the VTN."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums
from contracts.c_client import make_client, check_sent

CAPABILITIES = ('http_pull_model', 'xml_signature', 'report_only')


@contract('C33', 'C10', targets=['client.OpenADRClient.create_party_registration'], samples=400)
def registration_request(w):
    """A registration says what the VEN is and can, as its user put it, and otherwise the documented defaults."""
    c, net = make_client(w, answers=lambda service, typ, p: ('oadrCreatedPartyRegistration',
                                                             {'response': {'response_code': 452, 'response_description': 'x'}}))
    c.ven_id = w.make('ven_id', Opt(Id()))
    c.ven_name = w.make('ven_name', Id())
    kw = {}
    for k in CAPABILITIES:
        if w.flag(k + '?'):
            kw[k] = w.flag(k)
    if w.flag('transport?'):
        kw['transport_name'] = w.make('transport', Enum('simpleHttp', 'xmpp'))
        kw['transport_address'] = w.make('address', Id())
        kw['profile_name'] = w.make('profile', Enum('2.0a', '2.0b'))
    if w.flag('ids?'):
        kw['registration_id'] = w.make('reg', Opt(Id()))
        kw['request_id'] = w.make('rid', Opt(Id()))
    w.call(c.create_party_registration, **kw)
    w.check('one request', w.all_(len(net.sent) == 1, net.sent[0][1] == 'oadrCreatePartyRegistration'))
    p = net.sent[0][2]
    w.check('who it is', w.all_(p['ven_name'] == c.ven_name, w.eq(p.get('ven_id'), c.ven_id)))
    w.check('pulls', w.iff(p['http_pull_model'], kw.get('http_pull_model', True)))
    w.check('signs', w.iff(p['xml_signature'], kw.get('xml_signature', False)))
    w.check('reports only', w.iff(p['report_only'], kw.get('report_only', False)))
    w.check('how it is reached', w.all_(p['transport_name'] == kw.get('transport_name', 'simpleHttp'),
                                        w.eq(p.get('transport_address'), kw.get('transport_address')),
                                        p['profile_name'] == kw.get('profile_name', '2.0b')))
    w.check('which registration', w.eq(p.get('registration_id'), kw.get('registration_id')))
    if kw.get('request_id') is not None:
        w.check('its request id', w.eq(p['request_id'], kw['request_id']))
    check_sent(w, net)


@contract('C33', 'C10', targets=['client.OpenADRClient.create_party_reregistration'], samples=200)
def reregistration_request(w):
    """A reregistration renews the registration named, or else the one there is."""
    reg = w.make('reg', Id())
    vid = w.make('vid', Id())

    def answer(service, typ, p):
        if typ == 'oadrCreatePartyRegistration':
            return 'oadrCreatedPartyRegistration', {'response': {'response_code': 200}, 'ven_id': vid, 'registration_id': reg}
        return 'oadrResponse', {}

    c, net = make_client(w, answers=answer)
    c.registration_id = w.make('old', Id())
    old, named = c.registration_id, w.flag('named')
    other = w.make('other', Id())
    w.call(c.create_party_reregistration, registration_id=other) if named else w.call(c.create_party_reregistration)
    p = net.sent[0][2]
    w.check('renewed', w.all_(net.sent[0][1] == 'oadrCreatePartyRegistration', w.eq(p['registration_id'], other if named else old),
                              p['ven_id'] == 'ven1'))
    w.check('the new registration', w.all_(w.eq(c.registration_id, reg), w.eq(c.ven_id, vid)))
    for s in net.sent[1:]:
        w.check('under the new identity', w.eq(s[2]['ven_id'], vid))


@contract('C33', targets=['client.OpenADRClient.poll', 'client.OpenADRClient.query_registration',
                          'client.OpenADRClient.request_event', 'client.OpenADRClient.cancel_party_registration',
                          'client.OpenADRClient.send_response'], samples=300)
def plain_requests(w):
    """Each request is one complete message to its service, and its answer is handed on."""
    reply = {'x': 1}
    c, net = make_client(w, answers=lambda service, typ, p: ('oadrAnswer', reply))
    c.ven_id = w.make('ven_id', Id())
    c.registration_id = w.make('reg', Id())
    which = w.choice('which', 6)
    want = ['oadrPoll', 'oadrQueryRegistration', 'oadrRequestEvent', 'oadrRequestEvent', 'oadrCancelPartyRegistration', 'oadrResponse'][which]
    limit = w.make('limit', Int(0, 10 ** 6))
    for again in range(2):
        if which == 0:
            r = w.call(c.poll)
        elif which == 1:
            r = w.call(c.query_registration)
        elif which == 2:
            r = w.call(c.request_event)
        elif which == 3:
            r = w.call(c.request_event, reply_limit=limit)
        elif which == 4:
            w.call(c.cancel_party_registration)
        else:
            code = w.make('code', Int(200, 500))
            text = w.make('text', Id())
            rid = w.make('rid', Id())
            how = w.choice('how', 2)
            w.call(c.send_response, 'EiRegisterParty') if how == 0 else \
                w.call(c.send_response, 'EiRegisterParty', response_code=code, response_description=text, request_id=rid)
            a = net.sent[-1][2]['response']
            w.check('the answer', w.all_(a['response_code'] == 200, a['response_description'] == 'OK') if how == 0 else
                    w.all_(a['response_code'] == code, a['response_description'] == text, a['request_id'] == rid))
        if which < 4:
            w.check('the answer is handed on', w.all_(r[0] == 'oadrAnswer', w.same(r[1], reply)))
        w.check('one message each', w.all_(len(net.sent) == again + 1, net.sent[again][1] == want))
        if want == 'oadrRequestEvent':
            w.check('as many as asked for', w.eq(net.sent[again][2].get('reply_limit'), limit if which == 3 else None))
        if which == 4:
            w.check('this registration', w.eq(net.sent[again][2]['registration_id'], c.registration_id))
    if which < 5:
        check_sent(w, net, c.ven_id)


@contract('C33', 'C13', targets=['client.OpenADRClient.register_reports'], samples=300, lists=False)
def offer_request(w):
    """The VEN offers the reports given, in order, as created now; what the VTN requests of them is taken up."""
    now = w.freeze()
    req = w.flag('requested')
    answer = {'response': {'response_code': 200, 'request_id': 'q'}, 'ven_id': 'ven1'}
    if req:
        answer['report_requests'] = [{'report_request_id': 'r1'}]
    c, net = make_client(w, answers=lambda service, typ, p: ('oadrRegisteredReport', answer))
    n = w.size('n', 3)
    reps = [w.new(objects.Report, report_specifier_id=w.make('s' + str(i), Id()), report_request_id=w.make('q' + str(i), Opt(Id())),
                  created_date_time=w.make('c' + str(i), DT()), report_name='METADATA_TELEMETRY_USAGE', report_descriptions=[])
            for i in range(n)]
    c.reports = list(reps)
    create = w.cb('create_report', mode='async')
    c.create_report = create
    w.call(c.register_reports, c.reports)
    w.check('one offer', w.all_(len(net.sent) == 1, net.sent[0][1] == 'oadrRegisterReport', len(net.sent[0][2]['reports']) == n))
    for i in range(n):
        r = net.sent[0][2]['reports'][i]
        w.check('of these reports', w.same(r, reps[i]))
        w.check('nobody has requested it yet', r.report_request_id == 0)
        w.check('created now', not_later(r.created_date_time, now))
    w.check('what is requested is taken up', len(create.calls) == (1 if req else 0))
    if req:
        w.check('as it was requested', w.same(create.calls[0][0][0], answer))
    check_sent(w, net)


def not_later(t, now):
    """datetime.now() with or without its zone"""
    return t == now if t.tzinfo is not None else t.astimezone(timezone.utc) == now


@contract('C33', 'C26', targets=['client.OpenADRClient.create_opt', 'client.OpenADRClient.cancel_opt'], samples=200)
def opt_ids(w):
    """Opts without an id get one of their own, which is the one to cancel them by."""
    c, net = make_client(w, answers=lambda service, typ, p: ('oadrCreatedOpt', {'opt_id': p['opt_id']}))
    given = [w.make('o' + str(i), Opt(Id(pool=['o1', 'o2', 'o3']))) for i in range(3)]
    ids = [w.call(c.create_opt, 'optIn', 'economic', [{'ven_id': 'ven1'}], event_id='e', modification_number=0, opt_id=given[i])
           for i in range(3)]
    for i in range(3):
        w.check('an id', ids[i] is not None)
        w.check('that was sent', w.all_(w.eq(net.sent[i][2]['opt_id'], ids[i]), c.opts[i].opt_id == ids[i]))
        if given[i] is not None:
            w.check('the one given', w.eq(ids[i], given[i]))
        for j in range(i):
            w.check('its own', w.any_(w.eq(given[i], given[j]), w.not_(w.eq(ids[i], ids[j]))) if given[i] is not None
                    else w.not_(w.eq(ids[i], ids[j])))
    check_sent(w, net)
    if w.all_(w.not_(w.eq(ids[0], ids[1])), w.not_(w.eq(ids[1], ids[2])), w.not_(w.eq(ids[0], ids[2]))):
        w.check('cancelled', w.call(c.cancel_opt, ids[1]) is True)
        w.check('this one', w.all_(len(c.opts) == 2, c.opts[0].opt_id == ids[0], c.opts[1].opt_id == ids[2]))
