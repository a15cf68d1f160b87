"""C27 start-up, periodic work and shutdown of the VEN; C10 what it tells the VTN while it registers."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
import re
from openleadr import objects, utils, enums
from openleadr.client import OpenADRClient
from contracts.c_client import Task, TaskLoop, make_client, ven_event, check_sent


class Session:
    def __init__(self):
        self.closed = 0

    async def close(self):
        self.closed = self.closed + 1


def step(field):
    """the n of '*/n', or nothing"""
    m = re.fullmatch(r'\*/(\d+)', field)
    return None if m is None else int(m.group(1))


DAY = timedelta(days=1)


@contract('C27', targets=['utils.cron_config'], samples=400)
def cron_schedule(w):
    """Work is done at least as often as asked, at whole multiples of the interval where these divide the clock."""
    v = w.make('interval', Dur(1, 40 * 86400, pool=[1, 2, 7, 15, 59, 60, 90, 900, 3540, 3599, 3600, 5400,
               21600, 82800, 86399, 86400, 90000, 172800]))
    c = w.call('openleadr.utils.cron_config', v)
    s, m, h = step(c['second']), step(c['minute']), step(c['hour'])
    # the period between two firings, from the meaning of the fields
    if s is not None:
        w.check('every so many seconds', w.all_(c['minute'] == '*', c['hour'] == '*', s >= 1, s <= 59))
        period = timedelta(seconds=s)
        top = timedelta(minutes=1)
    elif m is not None:
        w.check('every so many minutes', w.all_(c['second'] == '0', c['hour'] == '*', m >= 1, m <= 59))
        period = timedelta(minutes=m)
        top = timedelta(hours=1)
    elif h is not None:
        w.check('every so many hours', w.all_(c['second'] == '0', c['minute'] == '0', h >= 1, h <= 23))
        period = timedelta(hours=h)
        top = DAY
    else:
        w.check('every day', w.all_(c['second'] == '0', c['minute'] == '0', c['hour'] == '0'))
        period = top = DAY
    w.check('at least as often as asked', period <= v)
    w.check('no more often than the clock requires', w.any_(v < period * 2, v >= DAY))
    unit = timedelta(seconds=1) if s is not None else (timedelta(minutes=1) if m is not None else timedelta(hours=1))
    w.check('exactly, for intervals the clock has', w.implies(w.all_(v % unit == timedelta(0), v <= DAY), period == v))
    w.check('no jitter unless asked for', w.all_('jitter' not in c, set(c.keys()) == {'second', 'minute', 'hour'}))


@contract('C27', targets=['utils.cron_config'], samples=200)
def cron_jitter(w):
    """Jitter is at most a tenth of the interval and at most five minutes, and changes nothing else."""
    v = w.make('interval', Dur(1, 40 * 86400))
    c = w.call('openleadr.utils.cron_config', v, randomize_seconds=True)
    plain = w.call('openleadr.utils.cron_config', v)
    j = c.pop('jitter')
    w.check('a tenth', w.all_(j >= 0, timedelta(seconds=j) * 10 <= v))
    w.check('five minutes', j <= 300)
    w.check('as large as allowed', w.any_(j == 300, timedelta(seconds=j + 1) * 10 > v))
    w.check('otherwise the same', c == plain)


def names(c, loop_jobs=True):
    return [j.func for j in c.scheduler.jobs]


@contract('C27', 'C10', targets=['client.OpenADRClient.run', 'client.OpenADRClient.query_registration',
                                 'client.OpenADRClient.create_party_registration', 'client.OpenADRClient.register_reports',
                                 'client.OpenADRClient.sync_events', 'client.OpenADRClient.request_event'],
          samples=500, budget=150)
def start_up(w):
    """The VEN registers, offers its reports, gets its events and polls once, in that order; then it polls at the
    frequency the VTN asked for.  Without a registration it stops."""
    known = w.choice('known', 3)          # what the query brings: nothing, an answer, an answer with a registration
    accepted = w.choice('accepted', 4)    # no answer, refused, accepted without a registration, accepted
    FREQ = Opt(Dur(1, 3 * 86400, whole=True, pool=[1, 10, 60, 86400, 86401, 172800]))
    freq = w.make('freq', FREQ) if accepted == 3 else None
    freq0 = w.make('freq0', FREQ) if known == 2 else None
    vid = w.make('ven_id', Id())
    rid = w.make('rid', Id())
    rid0 = w.make('rid0', Id())
    qid = w.make('qid', Id())
    reports = w.choice('reports', 2)
    events = w.choice('events', 2)
    handled = []

    def answer(service, typ, p):
        if typ == 'oadrQueryRegistration':
            if known == 0:
                return None, {}
            r = {'response': {'response_code': 200, 'request_id': qid}}
            if known == 2:
                r['registration_id'] = rid0
                if freq0 is not None:
                    r['requested_oadr_poll_freq'] = freq0
            return 'oadrCreatedPartyRegistration', r
        if typ == 'oadrCreatePartyRegistration':
            if accepted == 0:
                return None, {}
            r = {'response': {'response_code': 200 if accepted > 1 else 452, 'response_description': 'text'}}
            if accepted == 3:
                r['registration_id'] = rid
                r['ven_id'] = vid
                if freq is not None:
                    r['requested_oadr_poll_freq'] = freq
            return 'oadrCreatedPartyRegistration', r
        if typ == 'oadrRequestEvent':
            return 'oadrDistributeEvent', ({'events': [1], 'request_id': 'e'} if events == 1 else {})
        return 'oadrResponse', {'response': {'response_code': 200}}

    c, net = make_client(w, answers=answer)
    now = w.freeze()
    c.registration_id = None
    c.ven_id = w.make('configured', Opt(Id()))
    before = c.ven_id
    loop = TaskLoop()
    w.stub('asyncio.get_event_loop', lambda: loop)
    w.stub('asyncio.get_running_loop', lambda: loop)
    w.stub('asyncio.create_task', loop.create_task)
    w.stub('asyncio.ensure_future', loop.create_task)
    c.client_session = Session()
    if reports == 1:
        c.reports.append(w.new(objects.Report, report_specifier_id='rs', report_descriptions=[], report_name='TELEMETRY_USAGE',
                               data_collection_mode='incremental', report_request_id='x', duration=timedelta(hours=1),
                               dtstart=None, created_date_time=None))

    async def on_event(message):
        handled.append(message)

    c._on_event = on_event
    w.call(c.run)
    registered = accepted == 3 or (accepted < 2 and known == 2)
    types = [s[1] for s in net.sent]
    w.check('asks first', types[:2] == ['oadrQueryRegistration', 'oadrCreatePartyRegistration'])
    p = net.sent[1][2]
    w.check('registers as itself', w.all_(w.eq(p['ven_id'], before), p['ven_name'] == 'ven'))
    if known > 0:
        w.check('answers the query', w.eq(p['request_id'], qid))
    if not registered:
        w.check('stops', w.all_(len(net.sent) == 2, c.client_session.closed == 1, len(c.scheduler.jobs) == 0,
                                c.scheduler.started == 0, len(handled) == 0, len(loop.tasks) == 0))
    else:
        w.check('registered', w.eq(c.registration_id, rid if accepted == 3 else rid0))
        if accepted == 3:
            w.check('with the id given', w.eq(c.ven_id, vid))
        w.check('in order', types[2:] == ['oadrRegisterReport', 'oadrRequestEvent', 'oadrPoll'])
        w.check('as the VEN it now is', w.all_(*[w.eq(s[2]['ven_id'], c.ven_id) for s in net.sent[2:]]))
        w.check('offers its reports', len(net.sent[2][2]['reports']) == reports)
        w.check('reports are sent in the background', len(loop.tasks) == reports)
        w.check('handles its events', len(handled) == events)
        w.check('starts working', w.all_(c.scheduler.started == 1, c.client_session.closed == 0))
        jobs = c.scheduler.jobs
        w.check('three jobs', len(jobs) == 3)
        asked = freq if accepted == 3 else freq0
        want = timedelta(seconds=10) if asked is None else (asked if asked < DAY else DAY)
        # what a job is shows when it runs
        over = {'event_descriptor': {'event_id': 'over', 'event_status': 'completed', 'modification_number': 0},
                'active_period': {'dtstart': now - timedelta(hours=2), 'duration': timedelta(hours=1)}}
        polls = cleans = follows = 0
        for j in jobs:
            c.received_events = [over]
            over['event_descriptor']['event_status'] = 'active'
            n = len(net.sent)
            w.call(j.func)
            period = timedelta(**j.options)
            w.check('periodically', j.trigger == 'interval')
            if len(net.sent) > n:
                polls = polls + 1
                w.check('a poll', w.all_(len(net.sent) == n + 1, net.sent[n][1] == 'oadrPoll'))
                w.check('at the frequency asked for', period == want)
            elif len(c.received_events) == 0:
                cleans = cleans + 1
                w.check('cleans up', period == timedelta(seconds=c.events_clean_up_period))
            else:
                follows = follows + 1
                w.check('follows the events', period == timedelta(seconds=c.event_status_log_period))
        w.check('one of each', w.all_(polls == 1, cleans == 1, follows == 1))
    net.sent = [s for s in net.sent if s[1] in ('oadrQueryRegistration', 'oadrCreatePartyRegistration')] + \
        [s for s in net.sent if s[1] in ('oadrRegisterReport', 'oadrRequestEvent', 'oadrPoll')]
    check_sent(w, net, c.ven_id)


@contract('C27', targets=['client.OpenADRClient.stop'], samples=60)
def shut_down(w):
    """Stopping ends the scheduler, the report queue and the connection, whichever of them exist."""
    c, net = make_client(w)
    session = Session()
    if w.flag('session'):
        c.client_session = session
    running = w.flag('running')
    if running:
        c.scheduler.start()
    task = None
    if w.flag('queue'):
        task = Task(None)
        c.report_queue_task = task
    w.call(c.stop)
    w.check('stopped', not c.scheduler.running)
    w.check('disconnected', c.client_session is None or session.closed == 1)
    if task is not None:
        w.check('queue ended', w.all_(task.cancels >= 1, task.done()))


@contract('C10', 'C27', targets=['client.OpenADRClient.register_reports'], samples=200)
def offer_reports(w):
    """All reports are offered in one message, created now, and the VTN's requests are taken up at once."""
    asked = w.choice('asked', 2) == 1
    payload = {'report_requests': [1], 'request_id': 'q'} if asked else {'response': {'response_code': 200}}
    c, net = make_client(w, answers=lambda service, t, p: ('oadrRegisteredReport', payload))
    now = w.freeze()
    n = w.size('n', 2, 3)
    reports = [w.new(objects.Report, report_specifier_id=w.make('rs' + str(i), Id()), report_descriptions=[],
                     report_name='TELEMETRY_USAGE', data_collection_mode='incremental', report_request_id='x',
                     duration=timedelta(hours=1), dtstart=None, created_date_time=None) for i in range(n)]
    h = w.cb('create_report', mode='async')
    c.create_report = h
    w.call(c.register_reports, reports)
    w.check('one message', w.all_(len(net.sent) == 1, net.sent[0][0] == 'EiReport', net.sent[0][1] == 'oadrRegisterReport'))
    p = net.sent[0][2]
    w.check('for this VEN', p['ven_id'] == 'ven1')
    w.check('all of them', len(p['reports']) == n)
    for i in range(n):
        w.check('in order', w.same(p['reports'][i], reports[i]))
        w.check('an offer', reports[i].report_request_id == 0)
        w.check('created now', reports[i].created_date_time is not None)
    w.check('requests are taken up', len(h.calls) == (1 if asked else 0))
    if asked:
        w.check('with the message', w.same(h.calls[0][0][0], payload))
