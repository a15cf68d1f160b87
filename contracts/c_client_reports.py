"""C13 what the VEN does with report requests, C14 what the VEN reports, C26 cancelling."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
import asyncio
from openleadr import objects, utils, enums
from contracts.c_client import make_client, Job, Scheduler, check_sent

IDS = ('r0', 'r1', 'r2')


def own_report(w, c, n, mode='incremental', name='TELEMETRY_USAGE', rates=True):
    """a report with n datapoints that this VEN offers"""
    rds = []
    for i in range(n):
        lo = w.make('min' + str(i), Dur()) if rates else timedelta(seconds=1)
        hi = w.make('max' + str(i), Dur()) if rates else timedelta(days=300)
        rds.append(w.new(objects.ReportDescription, r_id=IDS[i], market_context=None, reading_type='Direct Read',
                         report_subject=None, report_data_source=None, report_type='reading',
                         sampling_rate=w.new(objects.SamplingRate, min_period=lo, max_period=hi, on_change=False),
                         measurement=w.new(objects.Measurement, name='voltage', description='Voltage', unit='V',
                                           acceptable_units=['V'], scale='none', power_attributes=None, pulse_factor=None,
                                           ns='emix')))
    rep = w.new(objects.Report, report_specifier_id='spec1', report_name=name, report_request_id=0,
                report_descriptions=rds, created_date_time=None, dtstart=None, duration=None, intervals=None,
                data_collection_mode=mode)
    c.reports.append(rep)
    return rep


def partial_target(w, job):
    """the report request a scheduled job works for"""
    return job.func


def matches(w, d, sp, gran, sampled):
    """is this requested datapoint on offer, in the measurement and at the rate asked for?"""
    ok = True
    if 'measurement' in sp:
        ok = w.all_(sp['measurement']['description'] == 'Voltage', sp['measurement']['unit'] == 'V')
    if gran is not None and sampled:
        ok = w.all_(ok, w.any_(gran == timedelta(0), w.all_(d.sampling_rate.min_period <= gran,
                                                            gran <= d.sampling_rate.max_period)))
    return ok


@contract('C13', targets=['client.OpenADRClient.create_report'], samples=500, budget=150, lists=False)
def create_report_one(w):
    """One report request: the datapoints on offer are scheduled at the requested interval, nothing else is, and
    the request is confirmed."""
    c, net = make_client(w)
    n = 2
    rep = own_report(w, c, n)
    ups = []

    async def update(report_request_id):
        ups.append(report_request_id)

    c.update_report = update
    rq = w.make('rq', Id())
    known = w.choice('known', 3)
    spec_id = ['spec1', 'nope', 'INVALID_x'][known]
    m = 1 + w.choice('m', 2)
    sps = []
    for k in range(m):
        sp = {'r_id': ['r0', 'r1', 'r9', 'INVALID'][w.choice('sp' + str(k), 3 if k else 4)], 'reading_type': 'Direct Read'}
        if k == 0 and w.choice('meas', 2) == 1:
            sp['measurement'] = {'name': 'voltage', 'description': w.make('what', Enum('Voltage', 'other')),
                                 'unit': w.make('unit', Enum('V', 'A')), 'scale': 'none'}
        sps.append(sp)
    if m == 2:
        w.assume(w.not_(sps[0]['r_id'] == sps[1]['r_id']))
    gran = w.make('gran', Dur())
    back = w.make('back', Dur())
    w.modular('openleadr.utils.cron_config', lambda interval, randomize_seconds=False: {'interval': interval})
    invalid = known == 2 or sps[0]['r_id'] == 'INVALID'
    req = {'report_request_id': rq, 'report_specifier': {'report_specifier_id': spec_id, 'granularity': gran,
           'report_back_duration': back, 'specifier_payloads': sps}}
    dated = w.choice('dated', 2) == 1
    start = w.make('start', DT())
    if dated:
        req['report_specifier']['report_interval'] = {'dtstart': start}
    # the request comes in an oadrCreateReport, or in the answer to an offer
    w.call(c.create_report, {'request_id': 'q', 'report_requests': [req]} if w.flag('asked') else
           {'response': {'response_code': 200, 'request_id': 'q'}, 'report_requests': [req]})
    want = []
    if known == 0 and not invalid:
        for sp in sps:
            if sp['r_id'] in ('r0', 'r1'):
                d = rep.report_descriptions[0 if sp['r_id'] == 'r0' else 1]
                if matches(w, d, sp, gran, True):
                    want.append(sp['r_id'])
    if invalid:
        w.check('an invalid request is not taken up', len(c.report_requests) == 0)
    else:
        w.check('the request is kept', len(c.report_requests) == 1)
        kept = c.report_requests[0]
        w.check('as it was asked', w.all_(w.eq(kept['report_request_id'], rq), kept['report_specifier_id'] == spec_id,
                                          w.eq(kept['report_back_duration'], back), w.eq(kept['granularity'], gran)))
        w.check('for the datapoints on offer', len(kept['r_ids']) == len(want))
        for k in range(len(want)):
            w.check('for every datapoint on offer', kept['r_ids'][k] == want[k])
    jobs = c.scheduler.jobs
    if invalid or known != 0:
        w.check('nothing is scheduled', w.all_(len(jobs) == 0, len(ups) == 0))
    elif back > timedelta(0) and (gran > timedelta(0) or len(want) == 0):
        w.check('reported periodically', w.all_(len(jobs) == 1, len(ups) == 0, jobs[0].trigger == 'cron'))
        w.check('its job is kept', w.same(c.report_requests[0]['job'], jobs[0]))
        iv = gran if gran > timedelta(0) else back
        cfg = utils.cron_config(iv)
        w.check('sampled at the requested interval', w.all_(*[w.eq(jobs[0].options[k], cfg[k]) for k in cfg]))
    elif dated:
        w.check('reported once, at the requested time', w.all_(len(jobs) == 1, len(ups) == 0, jobs[0].trigger == 'date',
                                                               w.eq(jobs[0].options['run_date'], start)))
    else:
        w.check('reported once, at once', w.all_(len(jobs) == 0, len(ups) == 1))
        w.check('this report', w.eq(ups[0], rq))
    if len(jobs) == 1:
        w.call(jobs[0].func)
        w.check('the job reports this request', w.all_(len(ups) == 1, w.eq(ups[0], rq)))
    sent = net.of('oadrCreatedReport')
    w.check('confirmed once', w.all_(len(sent) == 1, len(net.sent) == 1, sent[0][0] == 'EiReport'))
    p = sent[0][2]
    w.check('confirmed to this VTN', w.all_(p['ven_id'] == 'ven1', p['response']['request_id'] == 'q'))
    w.check('the request is named', w.all_(len(p['pending_reports']) == 1,
                                           w.eq(p['pending_reports'][0]['report_request_id'], rq)))
    w.check('an invalid request is refused', w.iff(p['response']['response_code'] == 200, not invalid))
    check_sent(w, net)


@contract('C13', targets=['client.OpenADRClient.create_report'], samples=300, budget=150, lists=False)
def create_report_two(w):
    """Several requests in one message are kept apart."""
    c, net = make_client(w)
    rep = own_report(w, c, 2, rates=False)
    ups = []

    async def update(report_request_id):
        ups.append(report_request_id)

    c.update_report = update
    w.modular('openleadr.utils.cron_config', lambda interval, randomize_seconds=False: {'interval': interval})
    reqs = []
    single = [w.choice('single' + str(i), 2) == 1 for i in range(2)]
    dated = w.choice('dated', 2) == 1
    gran = [w.make('gran' + str(i), Dur(lo=1, hi=86400)) for i in range(2)]
    for i in range(2):
        r = {'report_request_id': 'q' + str(i), 'report_specifier': {
            'report_specifier_id': 'spec1', 'granularity': timedelta(0) if single[i] else gran[i],
            'report_back_duration': timedelta(0) if single[i] else timedelta(days=2),
            'specifier_payloads': [{'r_id': IDS[i], 'reading_type': 'Direct Read'}]}}
        if dated:
            r['report_specifier']['report_interval'] = {'dtstart': w.make('start' + str(i), DT())}
        reqs.append(r)
    w.call(c.create_report, {'request_id': 'q', 'report_requests': reqs})
    w.check('both are kept', len(c.report_requests) == 2)
    for i in range(2):
        k = c.report_requests[i]
        w.check('each with its own datapoints', w.all_(k['report_request_id'] == 'q' + str(i), len(k['r_ids']) == 1,
                                                       k['r_ids'][0] == IDS[i]))
        w.check('each at its own rate', w.eq(k['granularity'], timedelta(0) if single[i] else gran[i]))
    for j in c.scheduler.jobs:
        w.call(j.func)
    w.check('every request is served', w.all_(len(ups) == 2, 'q0' in ups, 'q1' in ups))
    sent = net.of('oadrCreatedReport')
    w.check('confirmed once', len(sent) == 1)
    w.check('both confirmed', w.all_(len(sent[0][2]['pending_reports']) == 2,
                                     sent[0][2]['pending_reports'][1]['report_request_id'] == 'q1'))


def request(w, c, n, gran, back, rq='q1'):
    r = {'report_request_id': rq, 'report_specifier_id': 'spec1', 'report_back_duration': back,
         'r_ids': [IDS[i] for i in range(n)], 'granularity': gran, 'job': None}
    c.report_requests.append(r)
    return r


@contract('C14', targets=['client.OpenADRClient.update_report'], samples=500, budget=200, lists=False)
def update_report_step(w):
    """One sampling of an incremental report: the new values are added to what was collected, and the report is sent
    exactly when it holds all the values of its interval."""
    c, net = make_client(w)
    n = 1 + w.size('n', 2)
    own_report(w, c, n, rates=False)
    k = 1 + w.choice('per', 4)
    gran = w.make('gran', Dur(lo=1, hi=86400, whole=True))
    back = gran * k
    request(w, c, n, gran, back)
    other = request(w, c, 1, gran, back, rq='q2')
    kind = [w.choice('kind' + str(i), 3 if i == 0 else 2) for i in range(n)]
    vals = [w.make('v' + str(i), Real()) for i in range(n)]
    stamp = [w.make('t' + str(i), DT()) for i in range(n)]
    cbs = []
    for i in range(n):
        ret = [vals[i], [(stamp[i], vals[i])], []][kind[i]]
        cb = w.cb('cb' + str(i), fn=w.returns(ret))
        cbs.append(cb)
        c.report_callbacks[('spec1', IDS[i])] = cb
    had = w.size('had', 3)
    w.assume(had < n * k)           # invariant: a report that is complete is not kept
    w.assume(k > 1 or had == 0)
    old = []
    early = w.make('early', DT())
    if had > 0:
        for i in range(had):
            old.append(w.new(objects.ReportInterval, dtstart=early, duration=None,
                             report_payload=w.new(objects.ReportPayload, r_id='r0', value=float(i), confidence=None,
                                                  accuracy=None)))
        c.incomplete_reports['q1'] = w.new(objects.Report, report_specifier_id='spec1', report_name='TELEMETRY_USAGE',
                                           report_request_id='q1', report_descriptions=[], created_date_time=early,
                                           dtstart=early, duration=None, intervals=list(old),
                                           data_collection_mode='incremental')
    keep = w.new(objects.Report, report_specifier_id='spec1', report_name='TELEMETRY_USAGE', report_request_id='q2',
                 report_descriptions=[], created_date_time=early, dtstart=early, duration=None, intervals=[],
                 data_collection_mode='incremental')
    c.incomplete_reports['q2'] = keep
    w.call(c.update_report, 'q1')
    for cb in cbs:
        w.check('every datapoint is sampled once', w.all_(len(cb.calls) == 1, len(cb.finished) == 1))
    new = [i for i in range(n) if kind[i] < 2]
    total = had + len(new)
    complete = k == 1 or total >= n * k
    queue = c.pending_reports.items
    w.check('sent exactly when complete', len(queue) == (1 if complete else 0))
    w.check('kept exactly when incomplete', w.iff('q1' in c.incomplete_reports, not complete))
    out = queue[0] if complete else c.incomplete_reports['q1']
    w.check('for this request', w.all_(out.report_request_id == 'q1', out.report_specifier_id == 'spec1',
                                       out.report_name == 'TELEMETRY_USAGE'))
    w.check('no value is lost or added', len(out.intervals) == total)
    for i in range(had):
        w.check('earlier values stay', w.same(out.intervals[i], old[i]))
    for j in range(len(new)):
        i = new[j]
        iv = out.intervals[had + j]
        w.check('the value of the callback', w.all_(iv.report_payload.r_id == IDS[i], w.eq(iv.report_payload.value, vals[i])))
        if kind[i] == 1:
            w.check('with its own timestamp', w.eq(iv.dtstart, stamp[i]))
    for iv in out.intervals:
        w.check('the report starts with its first value', out.dtstart <= iv.dtstart)
    if total > 0:
        w.check('at a value', w.any_(*[w.eq(out.dtstart, iv.dtstart) for iv in out.intervals]))
    w.check('other reports are left alone', w.all_(w.same(c.incomplete_reports['q2'], keep), len(keep.intervals) == 0))


@contract('C14', targets=['client.OpenADRClient.update_report'], samples=300, budget=150, lists=False)
def update_report_history(w):
    """From scratch: a report with k samplings per interval is sent after every k-th sampling, with k values."""
    c, net = make_client(w)
    own_report(w, c, 1, rates=False)
    k = 1 + w.size('k', 3, 4)
    rounds = 1 + w.size('rounds', 5, 7)
    gran = w.make('gran', Dur(lo=1, hi=86400, whole=True))
    request(w, c, 1, gran, gran * k)
    cb = w.cb('cb', ret=Real())
    c.report_callbacks[('spec1', 'r0')] = cb
    for i in range(rounds):
        w.call(c.update_report, 'q1')
    queue = c.pending_reports.items
    w.check('one report per interval', len(queue) == rounds // k)
    for j in range(len(queue)):
        w.check('with all its values', len(queue[j].intervals) == k)
        for i in range(k):
            w.check('in order, each once', w.eq(queue[j].intervals[i].report_payload.value, cb.results[j * k + i]))


@contract('C14', targets=['client.OpenADRClient.update_report'], samples=300, budget=100, lists=False)
def update_report_single(w):
    """A report without an interval is sent at once."""
    now = w.freeze()
    c, net = make_client(w)
    name = ['TELEMETRY_USAGE', 'TELEMETRY_STATUS'][w.choice('name', 2)]
    own_report(w, c, 1, rates=False, name=['', 'METADATA_'][w.choice('meta', 2)] + name)
    zero = timedelta(0)
    gran = w.make('gran', Dur())
    back = w.make('back', Dur())
    w.assume(w.any_(gran == zero, back <= gran))
    request(w, c, 1, gran, back)
    cb = w.cb('cb', ret=Real())
    c.report_callbacks[('spec1', 'r0')] = cb
    w.call(c.update_report, 'q1')
    queue = c.pending_reports.items
    w.check('sent at once', w.all_(len(queue) == 1, 'q1' not in c.incomplete_reports, len(queue[0].intervals) == 1))
    iv = queue[0].intervals[0]
    w.check('the value', w.eq(iv.report_payload.value, cb.results[0]))
    w.check('of this report', w.all_(queue[0].report_name == name, queue[0].report_request_id == 'q1'))
    w.check('taken now', w.eq(iv.dtstart, now))
    w.check('a value for the sampling interval, if it stands alone', w.eq(iv.duration, gran if name == 'TELEMETRY_USAGE' and back == zero else None))


@contract('C14', targets=['client.OpenADRClient.update_report'], samples=300, budget=100, lists=False)
def update_report_several(w):
    """A callback that returns several values at once has them all reported, in order."""
    c, net = make_client(w)
    name = ['TELEMETRY_USAGE', 'TELEMETRY_STATUS'][w.choice('name', 2)]
    own_report(w, c, 1, rates=False, name=name)
    gran = w.make('gran', Dur(lo=0, hi=86400, whole=True))
    request(w, c, 1, gran, timedelta(0))
    n = w.size('n', 4, 6)
    rows = [(w.make('t' + str(i), DT()), w.make('v' + str(i), Real())) for i in range(n)]
    cb = w.cb('cb', fn=w.returns(rows))
    c.report_callbacks[('spec1', 'r0')] = cb
    w.call(c.update_report, 'q1')
    queue = c.pending_reports.items
    w.check('sent at once', w.all_(len(queue) == 1, 'q1' not in c.incomplete_reports))
    w.check('all the values', len(queue[0].intervals) == n)
    for i in range(n):
        iv = queue[0].intervals[i]
        w.check('each as given, in order', w.all_(iv.report_payload.r_id == 'r0', w.eq(iv.dtstart, rows[i][0]),
                                                  w.eq(iv.report_payload.value, rows[i][1])))


@contract('C14', targets=['client.OpenADRClient.update_report'], samples=300, budget=100, lists=False)
def update_report_full(w):
    """In full mode the callback is asked for the whole reporting interval, which ends now."""
    now = w.freeze()
    c, net = make_client(w)
    n = 1 + w.size('n', 2)
    own_report(w, c, n, mode='full', rates=False)
    gran = w.make('gran', Dur(lo=1, hi=86400))
    back = w.make('back', Opt(Dur(lo=0, hi=10 * 86400)))
    request(w, c, n, gran, back)
    if back is None:
        back = gran
    cbs = []
    rows = []
    for i in range(n):
        m = w.choice('m' + str(i), 3)
        rs = [(w.make('t' + str(i) + str(j), DT()), w.make('v' + str(i) + str(j), Real())) for j in range(m)]
        rows.append(rs)
        cb = w.cb('cb' + str(i), fn=w.returns(rs), signature=('date_from', 'date_to', 'sampling_interval'))
        cbs.append(cb)
        c.report_callbacks[('spec1', IDS[i])] = cb
    w.call(c.update_report, 'q1')
    for cb in cbs:
        w.check('asked once', len(cb.calls) == 1)
        kw = cb.calls[0][1]
        w.check('for the whole interval', w.all_(w.eq(kw['date_to'], now), now - kw['date_from'] >= back,
                                                 now - kw['date_from'] >= gran, w.eq(kw['sampling_interval'], gran)))
        w.check('and no more', w.any_(now - kw['date_from'] == back, now - kw['date_from'] == gran))
    queue = c.pending_reports.items
    w.check('sent at once', w.all_(len(queue) == 1, 'q1' not in c.incomplete_reports))
    flat = [(i, x) for i in range(n) for x in rows[i]]
    w.check('all the values', len(queue[0].intervals) == len(flat))
    for k in range(len(flat)):
        iv = queue[0].intervals[k]
        w.check('each as given', w.all_(iv.report_payload.r_id == IDS[flat[k][0]], w.eq(iv.dtstart, flat[k][1][0]),
                                        w.eq(iv.report_payload.value, flat[k][1][1])))


@contract('C14', targets=['client.OpenADRClient._report_queue_worker'], samples=200, lists=False)
def queue_worker(w):
    """Every queued report is sent once, in order, even if the VTN cannot be reached for one of them."""
    n = w.size('n', 4, 5)
    fails = [w.choice('fail' + str(i), 3) for i in range(n)]
    count = []

    def answer(service, typ, payload):
        k = len(count)
        count.append(k)
        if fails[k] == 1:
            raise AnyError('network')
        if fails[k] == 2:
            return 'oadrUpdatedReport', {'cancel_report': {'report_request_id': 'q' + str(k)}}
        return 'oadrUpdatedReport', {}

    c, net = make_client(w, answers=answer)
    cancelled = []

    async def cancel(payload):
        cancelled.append(payload['report_request_id'])

    c.cancel_report = cancel
    reps = [w.new(objects.Report, report_request_id='q' + str(i)) for i in range(n)]
    for r in reps:
        c.pending_reports.items.append(r)
    w.call(c._report_queue_worker)
    w.check('each is sent once', w.all_(len(net.sent) == n, len(net.created) == n))
    for i in range(n):
        p = net.sent[i][2]
        w.check('in order', w.all_(net.sent[i][1] == 'oadrUpdateReport', len(p['reports']) == 1,
                                   w.same(p['reports'][0], reps[i]), p['ven_id'] == 'ven1'))
    w.check('cancellations are carried out', len(cancelled) == len([f for f in fails if f == 2]))
    check_sent(w, net)


# ---------------------------------------------------------------- C26
@contract('C26', targets=['client.OpenADRClient.cancel_report'], samples=300, lists=False)
def cancel_report(w):
    """Cancelling a report stops it, reports one last time, and leaves the others alone."""
    c, net = make_client(w)
    w.modular('asyncio.sleep', w.cb('sleep', mode='async'))
    ups = []

    async def update(report_request_id):
        ups.append(report_request_id)

    c.update_report = update
    n = 1 + w.size('n', 3, 3)
    jobs = []
    rqs = []
    for i in range(n):
        job = c.scheduler.add_job(None, 'cron') if w.choice('job' + str(i), 2) == 1 else None
        jobs.append(job)
        r = {'report_request_id': w.make('rq' + str(i), Id()), 'report_specifier_id': 's', 'report_back_duration': None,
             'r_ids': ['r0'] if i != 1 else [], 'granularity': None, 'job': job}
        rqs.append(r)
        c.report_requests.append(r)
    for i in range(n):
        for j in range(i):
            w.assume(w.not_(rqs[i]['report_request_id'] == rqs[j]['report_request_id']))
    rid = w.make('cancel', Id())
    follow = w.choice('follow', 2) == 1
    if not w.symbolic:
        w.stub('asyncio.sleep', quick_sleep)
    w.call(c.cancel_report, {'report_request_id': rid, 'request_id': 'q', 'report_to_follow': follow})
    hit = [i for i in range(n) if rqs[i]['report_request_id'] == rid]
    w.check('others stay', len(c.report_requests) == n - len(hit))
    for i in range(n):
        if i not in hit:
            w.check('others stay', w.any_(*[w.same(x, rqs[i]) for x in c.report_requests]))
            w.check('and run on', jobs[i] is None or jobs[i].removed == 0)
        else:
            w.check('stopped', jobs[i] is None or jobs[i].removed == 1)
    sent = net.of('oadrCanceledReport')
    w.check('confirmed', len(sent) == len(hit))
    if len(hit) == 1:
        p = sent[0][2]
        w.check('to the VTN', w.all_(sent[0][0] == 'EiReport', p['ven_id'] == 'ven1', p['response']['request_id'] == 'q',
                                     p['response']['response_code'] == 200))
        w.check('one last time', w.iff(len(ups) > 0, follow or hit[0] != 1))
        for u in ups:
            w.check('this report only', w.eq(u, rid))
        w.check('the message says what is to follow', (len(p['pending_reports']) == 1 and w.eq(p['pending_reports'][0]['report_request_id'], rid))
                if follow else len(p.get('pending_reports') or []) == 0)
    else:
        w.check('nothing is reported', len(ups) == 0)
    check_sent(w, net)


async def quick_sleep(delay, result=None):
    return result


@contract('C14', targets=['client.OpenADRClient.create_report', 'client.OpenADRClient.update_report'], samples=300, budget=100, lists=False)
def create_report_full(w):
    """A report that is collected in one go is collected once for every reporting interval, so that no value is sent twice."""
    now = w.freeze()
    c, net = make_client(w)
    own_report(w, c, 1, mode='full', rates=False)
    gran = w.make('gran', Dur(lo=1, hi=86400, whole=True))
    back = w.make('back', Dur(lo=1, hi=86400, whole=True))
    w.modular('openleadr.utils.cron_config', lambda interval, randomize_seconds=False: {'interval': interval})
    cb = w.cb('cb', fn=w.returns([]), signature=('date_from', 'date_to', 'sampling_interval'))
    c.report_callbacks[('spec1', 'r0')] = cb
    w.call(c.create_report, {'request_id': 'q', 'report_requests': [
        {'report_request_id': 'q1', 'report_specifier': {
            'report_specifier_id': 'spec1', 'granularity': gran, 'report_back_duration': back,
            'specifier_payloads': [{'r_id': 'r0', 'reading_type': 'Direct Read'}]}}]})
    jobs = c.scheduler.jobs
    w.check('scheduled once', w.all_(len(jobs) == 1, jobs[0].trigger == 'cron', len(cb.calls) == 0))
    w.call(jobs[0].func)
    w.check('one call collects the values', len(cb.calls) == 1)
    span = cb.calls[0][1]['date_to'] - cb.calls[0][1]['date_from']
    cfg = utils.cron_config(span)
    w.check('as often as the collected intervals are long', w.all_(*[w.eq(jobs[0].options[k], cfg[k]) for k in cfg]))


@contract('C14', 'C26', targets=['client.OpenADRClient.cancel_report', 'client.OpenADRClient.update_report'], samples=300, budget=100, lists=False)
def cancel_incomplete(w):
    """Cancelling a report that is not complete sends what was collected for it, each value once, and nothing of other reports."""
    w.modular('asyncio.sleep', w.cb('sleep', mode='async'))
    if not w.symbolic:
        w.stub('asyncio.sleep', quick_sleep)
    c, net = make_client(w)
    own_report(w, c, 1, rates=False)
    k = 2 + w.size('k', 2, 5)
    gran = w.make('gran', Dur(lo=1, hi=86400, whole=True))
    job = c.scheduler.add_job(None, 'cron')
    request(w, c, 1, gran, gran * k)['job'] = job
    request(w, c, 1, gran, gran * k, rq='q2')
    cb = w.cb('cb', ret=Real())
    c.report_callbacks[('spec1', 'r0')] = cb
    before = w.size('before', 3, 4)
    w.assume(before < k)
    for i in range(before):
        w.call(c.update_report, 'q1')
    others = w.choice('others', 2)
    for i in range(others):
        w.call(c.update_report, 'q2')
    of_others = cb.results[before:]
    w.assume(len(c.pending_reports.items) == 0)
    w.call(c.cancel_report, {'report_request_id': 'q1', 'request_id': 'q', 'report_to_follow': w.flag('follow')})
    own = list(cb.results[:before]) + list(cb.results[before + others:])
    sent = [iv for r in c.pending_reports.items for iv in r.intervals]
    w.check('no value is lost', len(sent) == len(own))
    for i in range(len(own)):
        w.check('each value once, in order', w.eq(sent[i].report_payload.value, own[i]))
    for r in c.pending_reports.items:
        w.check('in reports of this request', r.report_request_id == 'q1')
    w.check('nothing is left behind', 'q1' not in c.incomplete_reports)
    w.check('and the report has stopped', w.all_(job.removed == 1, len(c.report_requests) == 1))
    w.check('other reports stay', w.iff('q2' in c.incomplete_reports, others > 0))
    w.check('confirmed once', len(net.of('oadrCanceledReport')) == 1)


@contract('C26', targets=['client.OpenADRClient.cancel_report', 'client.OpenADRClient.update_report'], samples=100, lists=False)
def cancel_nonexistent(w):
    """A request for a report that this VEN does not have can be cancelled too."""
    w.modular('asyncio.sleep', w.cb('sleep', mode='async'))
    if not w.symbolic:
        w.stub('asyncio.sleep', quick_sleep)
    c, net = make_client(w)
    own_report(w, c, 1, rates=False)
    gran = w.make('gran', Dur(lo=1, hi=86400, whole=True))
    w.call(c.create_report, {'request_id': 'q', 'report_requests': [
        {'report_request_id': 'q1', 'report_specifier': {
            'report_specifier_id': 'spec9', 'granularity': gran, 'report_back_duration': gran,
            'specifier_payloads': [{'r_id': 'r0', 'reading_type': 'Direct Read'}]}}]})
    w.call(c.cancel_report, {'report_request_id': 'q1', 'request_id': 'q', 'report_to_follow': w.flag('follow')})
    w.check('confirmed once', len(net.of('oadrCanceledReport')) == 1)
    w.check('gone', len(c.report_requests) == 0)
    w.check('nothing is reported', w.all_(len(c.pending_reports.items) == 0, len(c.incomplete_reports) == 0))


@contract('C26', targets=['client.OpenADRClient.cancel_report'], samples=200, lists=False)
def cancel_several(w):
    """One message can cancel several reports; the others stay, and all cancellations are confirmed with one message."""
    w.modular('asyncio.sleep', w.cb('sleep', mode='async'))
    if not w.symbolic:
        w.stub('asyncio.sleep', quick_sleep)
    c, net = make_client(w)
    ups = []

    async def update(report_request_id):
        ups.append(report_request_id)

    c.update_report = update
    jobs = {}
    for q in ('q1', 'q2', 'q3'):
        jobs[q] = c.scheduler.add_job(None, 'cron')
        c.report_requests.append({'report_request_id': q, 'report_specifier_id': 's', 'report_back_duration': None,
                                  'r_ids': ['r0'], 'granularity': None, 'job': jobs[q]})
    ids = [['q1', 'q2', 'q3', 'q9'][w.choice('id' + str(i), 4)] for i in range(2)]
    w.assume(ids[0] != ids[1])
    follow = w.flag('follow')
    w.call(c.cancel_report, {'report_request_id': ids, 'request_id': 'q', 'report_to_follow': follow})
    known = [q for q in ids if q != 'q9']
    w.check('exactly those stop', w.all_(*[w.iff(jobs[q].removed == 1, q in ids) for q in ('q1', 'q2', 'q3')]))
    w.check('the others stay', w.all_(len(c.report_requests) == 3 - len(known), *[r['report_request_id'] not in ids for r in c.report_requests]))
    for q in known:
        w.check('each reports one last time', q in ups)
    for u in ups:
        w.check('and no other', u in known)
    sent = net.of('oadrCanceledReport')
    w.check('confirmed with one message', w.all_(len(sent) == 1, len(net.sent) == 1))
    p = sent[0][2]
    w.check('that names the request', w.all_(p['response']['request_id'] == 'q', p['response']['response_code'] == 200))
    if follow:
        w.check('and what is to follow', [x['report_request_id'] for x in p['pending_reports']] == known)
    else:
        w.check('nothing is to follow', len(p.get('pending_reports') or []) == 0)
    check_sent(w, net)
