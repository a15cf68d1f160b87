"""C30 what a VEN offers to report, C21 measurement definitions, C20 what is put right or refused before sending."""
from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums, preflight
from contracts.c_client import make_client

NAMES = tuple(enums._MEASUREMENT_DESCRIPTIONS)
POWER = ('powerReal', 'powerReactive', 'powerApparent')
MEMBERS = tuple(enums.MEASUREMENTS.members)


def named(i):
    return enums.MEASUREMENTS[MEMBERS[i]]


def measurement_of(w, kind):
    """(argument, unit argument, expected measurement or None)"""
    scale = w.make('scale', Opt(Enum('none', 'k', 'm', 'M')))
    hz = w.make('hz', Int(0, 60, pool=[50, 60]))
    volt = w.make('volt', Int(0, 400, pool=[120, 230]))
    ac = w.flag('ac')
    kw = {'power_hertz': hz, 'power_voltage': volt, 'power_ac': ac}
    if scale is not None:
        kw['scale'] = scale
    given, scale = scale, 'none' if scale is None else scale
    if kind == 0:
        # one of the known ones, by name
        i = w.choice('known', len(MEMBERS))
        m = named(i)
        arg = [MEMBERS[i], MEMBERS[i].lower(), MEMBERS[i].capitalize()][w.choice('case', 3)]
        u = w.choice('unit', 4)
        unit = [None, m.unit, m.acceptable_units[-1], 'furlong'][u]
        if unit is not None:
            kw['unit'] = unit
        return arg, kw, dict(name=m.name, description=m.description, unit=unit if u == 2 else m.unit,
                             scale=None if m.pulse_factor is not None else scale, pulse_factor=m.pulse_factor,
                             power=(ac, hz, volt) if m.name in POWER else None, ns=m.ns)
    if kind == 1:
        # an object of the user's
        own = w.make('own', Opt(Enum('none', 'k')))
        m = objects.Measurement(name='voltage', description='Voltage', unit='V', acceptable_units=['V', 'mV'], scale=own)
        if w.flag('own unit'):
            kw['unit'] = 'mV'
        return m, kw, dict(name='voltage', description='Voltage', unit=kw.get('unit', 'V'),
                           scale=own if given is None and own is not None else scale,
                           pulse_factor=None, power=None, ns='power')
    if kind == 2:
        # a dictionary
        which = w.choice('which', 4)
        if which == 3:
            f = w.make('factor', Int(1, 10 ** 6))
            d = {'name': 'pulseCount', 'description': 'pulse count', 'unit': 'count', 'pulse_factor': f}
            return d, kw, dict(name='pulseCount', description='pulse count', unit='count', scale=None, pulse_factor=f, power=None, ns='oadr')
        own = w.make('own', Opt(Enum('none', 'k')))
        d = {'name': 'powerReal', 'description': 'RealPower', 'unit': 'W'}
        d['power_attributes'] = {'hertz': hz, 'voltage': volt, 'ac': ac}
        if which == 1:
            d = {'name': 'myOwn', 'description': 'Some Thing', 'unit': 'x'}
        if which == 2:
            d = {'name': 'current', 'description': 'CURRENT', 'unit': 'A'}
        if own is not None:
            d['scale'] = own
        name, text = [('powerReal', 'RealPower'), ('customUnit', 'Some Thing'), ('current', 'Current')][which]
        return d, kw, dict(name=name, description=text, unit=d['unit'], scale=own if given is None and own is not None else scale,
                           pulse_factor=None, power=(ac, hz, volt) if which == 0 else None, ns='power' if which == 0 else 'oadr')
    if kind == 3:
        # the user's own quantity
        name = w.make('custom', Enum('Flux', 'Some Thing', 'x-temp'))
        kw['unit'] = w.make('cunit', Opt(Id(pool=['V/m', 'l', 'x'])))
        return name, kw, dict(name='customUnit', description=name, unit=kw['unit'], scale=scale, pulse_factor=None,
                              power=None, ns='oadr')
    kw['report_name'] = 'TELEMETRY_STATUS'
    if w.flag('a unit'):
        kw['unit'] = 'A'
    return None, kw, None


def check_measurement(w, m, want):
    if want is None:
        w.check('status reports have no measurement', m is None)
        return
    w.check('the quantity asked for', w.all_(m.name == want['name'], m.description == want['description'],
                                             m.unit == want['unit'], m.ns == want['ns']))
    w.check('at the scale asked for', w.all_(w.eq(m.scale, want['scale']), w.eq(m.pulse_factor, want['pulse_factor'])))
    pa = m.power_attributes
    if want['power'] is None:
        w.check('no power attributes', pa is None)
    else:
        w.check('the power attributes given', w.all_(pa is not None, w.iff(pa.ac, want['power'][0]),
                                                     pa.hertz == want['power'][1], pa.voltage == want['power'][2]))


@contract('C30', targets=['client.OpenADRClient.add_report'], samples=600, budget=250)
def add_report_measurement(w):
    """A datapoint is offered with exactly the quantity, unit, scale and power attributes that were asked for, and
    shares none of them with other reports."""
    c, net = make_client(w)
    now = w.freeze()
    cb = w.cb('cb')
    arg, kw, want = measurement_of(w, w.choice('kind', 5))
    before = [(m.unit, m.scale, m.power_attributes) for m in enums.MEASUREMENTS.values]
    rs, rid = w.call(c.add_report, cb, 'res', measurement=arg, **kw)
    w.check('one report', w.all_(len(c.reports) == 1, len(c.reports[0].report_descriptions) == 1))
    rd = c.reports[0].report_descriptions[0]
    check_measurement(w, rd.measurement, want)
    w.check('the known measurements are as they were',
            [(m.unit, m.scale, m.power_attributes) for m in enums.MEASUREMENTS.values] == before)
    w.check('the callback is registered', w.all_(len(c.report_callbacks) == 1, (rs, rid) in c.report_callbacks,
                                                 w.same(c.report_callbacks[(rs, rid)], cb)))


@contract('C30', targets=['client.OpenADRClient.add_report'], samples=600, budget=250)
def add_report_twice(w):
    """Datapoints of the same report end up in one report, others in their own; every datapoint keeps its callback."""
    c, net = make_client(w)
    now = w.freeze()
    n = 2
    cbs = [w.cb('cb0'), w.cb('cb1')]
    want = []
    ret = []
    for i in range(n):
        name = w.make('name' + str(i), Enum('TELEMETRY_USAGE', 'HISTORY_USAGE', 'x-own'))
        spec = w.make('spec' + str(i), Opt(Id(pool=['s1', 's2'])))
        rid = w.make('rid' + str(i), Opt(Id(pool=['r1', 'r2'])))
        rate = w.choice('rate' + str(i), 3)
        kw = {}
        if rate == 1:
            kw['sampling_rate'] = w.make('sr' + str(i), Dur(1, 86400))
        if rate == 2:
            kw['sampling_rate'] = objects.SamplingRate(min_period=w.make('lo' + str(i), Dur()),
                                                       max_period=w.make('hi' + str(i), Dur()), on_change=w.flag('oc' + str(i)))
        if w.flag('dur?' + str(i)):
            kw['report_duration'] = w.make('dur' + str(i), Dur())
        if w.flag('start?' + str(i)):
            kw['report_dtstart'] = w.make('start' + str(i), DT())
        mc = w.make('mc' + str(i), Opt(Id()))
        res = w.make('res' + str(i), Id())
        r = w.call(c.add_report, cbs[i], res, measurement='voltage', report_name=name, report_specifier_id=spec,
                   r_id=rid, market_context=mc, reading_type=enums.READING_TYPE.MEAN,
                   report_type=enums.REPORT_TYPE.USAGE, **kw)
        want.append((name, spec, rid, kw, mc, res, rate))
        w.check('ids', w.all_(r[0] is not None, r[1] is not None))
        ret.append(r)
        if spec is not None:
            w.check('the report specifier asked for', r[0] == spec)
        if rid is not None:
            w.check('the r_id asked for', r[1] == rid)
    same = w.all_(want[0][0] == want[1][0], w.any_(want[1][1] is None, w.eq(want[1][1], ret[0][0])))
    if same:
        w.check('one report', w.all_(len(c.reports) == 1, len(c.reports[0].report_descriptions) == 2,
                                     ret[0][0] == ret[1][0]))
    else:
        w.check('two reports', w.all_(len(c.reports) == 2, len(c.reports[0].report_descriptions) == 1,
                                      len(c.reports[1].report_descriptions) == 1))
    for i in range(n):
        j = 0 if same else i
        rep = c.reports[j]
        rd = rep.report_descriptions[i if same else 0]
        name, spec, rid, kw, mc, res, rate = want[i]
        w.check('in the report named', w.all_(rep.report_name == name, rep.report_specifier_id == ret[i][0],
                                              rd.r_id == ret[i][1]))
        w.check('as described', w.all_(rd.report_type == 'usage', rd.reading_type == 'Mean',
                                       w.eq(rd.market_context, mc),
                                       rd.report_subject.resource_id == res, rd.report_data_source.resource_id == res))
        sr = rd.sampling_rate
        if rate == 0:
            w.check('default rate', w.all_(sr.min_period == timedelta(seconds=10), sr.max_period == timedelta(hours=1), w.not_(sr.on_change)))
        if rate == 1:
            w.check('that rate', w.all_(sr.min_period == kw['sampling_rate'], sr.max_period == kw['sampling_rate'], w.not_(sr.on_change)))
        if rate == 2:
            w.check('those rates', w.same(sr, kw['sampling_rate']))
        if i == 0 or not same:
            w.check('the buffer', w.all_(rep.duration == kw.get('report_duration', timedelta(hours=1)),
                                         rep.dtstart == kw.get('report_dtstart', now)))
    if want[0][2] is None or want[1][2] is None:
        w.check('an r_id of its own', w.not_(w.eq(ret[0][1], ret[1][1])))
    if not same and want[1][1] is None:
        w.check('a report of its own', w.not_(w.eq(ret[0][0], ret[1][0])))
    distinct = w.any_(ret[0][0] != ret[1][0], ret[0][1] != ret[1][1])
    if distinct:
        for i in range(n):
            w.check('each datapoint has its callback', w.same(c.report_callbacks[ret[i]], cbs[i]))


async def full_reader(date_from, date_to, sampling_interval):
    return []


def short_reader(date_from, date_to):
    return []


def endless_reader(date_from, sampling_interval):
    return []


def beginless_reader(date_to, sampling_interval):
    return []


@contract('C30', targets=['client.OpenADRClient.add_report'], samples=200)
def add_report_meter(w):
    """The meter of the end device is named, if it is given; kinds of readings and reports of one's own are allowed."""
    c, net = make_client(w)
    now = w.freeze()
    res = w.make('res', Id())
    mrid = w.make('mrid', Opt(Id()))
    kw = {'reading_type': w.make('reading', Enum('x-mean', 'Mean')), 'report_type': w.make('type', Enum('x-own', 'usage'))} if w.flag('kinds') else {}
    w.call(c.add_report, w.cb('cb'), res, measurement='voltage', end_device_asset_mrid=mrid, **kw)
    rd = c.reports[0].report_descriptions[0]
    w.check('the kinds', w.all_(rd.reading_type == kw.get('reading_type', 'Direct Read'), rd.report_type == kw.get('report_type', 'reading')))
    s = rd.report_subject
    w.check('the resource', rd.report_data_source.resource_id == res)
    if mrid is None:
        w.check('no meter', s is None or s.end_device_asset is None)
    else:
        w.check('the meter', w.all_(s.end_device_asset.mrid == mrid, rd.report_data_source.end_device_asset is None))


@contract('C30', targets=['client.OpenADRClient.add_report'], samples=300)
def add_report_refused(w):
    """What cannot be reported is refused and leaves nothing behind."""
    c, net = make_client(w)
    now = w.freeze()
    k = w.choice('what', 8)
    kw = {}
    fn = full_reader
    measurement = 'voltage'
    if k == 7:
        measurement = [{'name': 'voltage', 'description': 'Voltage', 'unit': 'furlong'}, {'name': 'voltage', 'description': 'Voltage'},
                       {'name': 'powerReal', 'description': 'RealPower', 'unit': 'W'}][w.choice('dict', 3)]
    if k == 0:
        kw['report_name'] = w.make('x', Enum('TELEMETRY', 'telemetry_usage', 'X-own', ''))
    if k == 1:
        kw['reading_type'] = w.make('x', Enum('Direct', 'direct read', ''))
    if k == 2:
        kw['report_type'] = w.make('x', Enum('Reading', 'x', ''))
    if k == 3:
        kw['scale'] = w.make('x', Enum('K', 'kilo', ''))
    if k == 4:
        kw['data_collection_mode'] = w.make('x', Enum('Full', '', 'both'))
    if k == 5:
        kw['data_collection_mode'] = 'full'
        fn = [short_reader, endless_reader, beginless_reader][w.choice('reader', 3)]
    if k == 6:
        kw['data_collection_mode'] = 'full'
    o = w.try_call(c.add_report, fn, 'res', measurement=measurement, **kw)
    if k == 6:
        w.check('accepted', w.all_(o.raised is None, len(c.reports) == 1, c.reports[0].data_collection_mode == 'full'))
    else:
        w.check('refused', o.is_a(TypeError) if k == 5 else o.is_a(ValueError))
        w.check('nothing left behind', w.all_(len(c.reports) == 0, len(c.report_callbacks) == 0))


# ---------------------------------------------------------------------------------------------- C21
@contract('C21', targets=['utils.validate_report_measurement_dict'], samples=600, budget=150)
def measurement_dict(w):
    """A measurement dictionary is accepted exactly when it is one the schema has; the description's case is put
    right, an unknown name becomes customUnit, and nothing else is touched."""
    i = w.choice('name', len(NAMES) + 2)
    name = NAMES[i] if i < len(NAMES) else ['customUnit', 'somethingElse'][i - len(NAMES)]
    known = i < len(NAMES)
    required = enums._MEASUREMENT_DESCRIPTIONS[name] if known else 'anything'
    dk = w.choice('description', 6)
    description = [required, required.upper(), required + 'x', 'other', required[:-1], ''][dk]
    units = enums._ACCEPTABLE_UNITS[name] if known else ('u',)
    unit = w.make('unit', Id(pool=[units[0], units[-1], units[0] + 'x', units[0][:-1], units[-1][1:], '', units[0].lower(),
                                   'Wh', 'W', 'V', 'A', 'VA', units[0] + "', '" + units[-1]]))
    m = {'name': name, 'description': description, 'unit': unit, 'scale': 'none'}
    missing = w.choice('missing', 4)
    if missing < 3:
        del m[['name', 'description', 'unit'][missing]]
    pk = w.choice('power', 4) if name in POWER or i % 5 == 0 else 0
    if pk > 0:
        m['power_attributes'] = {'hertz': w.make('hertz', Int(0, 400, pool=[0, 50, 60])), 'voltage': w.make('voltage', Int(0, 1000)),
                                 'ac': w.flag('ac')}
    if pk == 2:
        del m['power_attributes'][w.make('attr', Enum('hertz', 'voltage', 'ac'))]
    if pk == 3:
        m['power_attributes']['more'] = 1
    before = w.deepcopy(m)
    o = w.try_call('openleadr.utils.validate_report_measurement_dict', m)
    good = missing >= 3
    if known:
        good = w.all_(good, dk <= 1, w.any_(*[unit == u for u in units]))
    if name in POWER:
        good = w.all_(good, pk in (1, 3))
    if not good:
        w.check('refused', o.is_a(ValueError))
    else:
        w.check('accepted', o.raised is None)
        w.check('a name the schema has', m['name'] == (name if known else 'customUnit'))
        w.check('the description the schema has', m['description'] == (required if known else description))
        del m['name']
        del m['description']
        del before['name']
        del before['description']
        w.check('nothing else touched', m == before)


@contract('C21', targets=['preflight._preflight_oadrRegisterReport', 'preflight.preflight_message'], samples=400, budget=150)
def register_report_preflight(w):
    """Offered reports are named METADATA_..., and each measurement gets the namespace its element is in."""
    n = w.size('n', 3, 4)
    reports = []
    names = []
    quantities = []
    for i in range(n):
        name = w.make('name' + str(i), Enum('TELEMETRY_USAGE', 'METADATA_TELEMETRY_USAGE', 'HISTORY_GREENBUTTON', 'x-own',
                                            'METADATA_HISTORY_USAGE'))
        names.append(name)
        q = w.choice('q' + str(i), 5)
        quantities.append(q)
        rd = {'r_id': w.make('r' + str(i), Id())}
        if q > 0:
            rd['measurement'] = [None, None, {'name': 'voltage', 'description': 'Voltage', 'unit': 'V'},
                                 {'name': 'current', 'description': 'CURRENT', 'unit': 'A'},
                                 {'name': 'Flux', 'description': 'flux', 'unit': 'u'}][q]
        rds = [rd]
        if i == 0 and w.choice('another', 2) == 1:
            rds = [{'r_id': 'other', 'measurement': {'name': 'energyReal', 'description': 'RealEnergy', 'unit': 'Wh'}}, rd]
        reports.append({'report_name': name, 'report_descriptions': rds, 'report_specifier_id': w.make('s' + str(i), Id())})
    p = {'reports': reports, 'ven_id': w.make('ven', Id())}
    ids = [(r['report_specifier_id'], r['report_descriptions'][-1]['r_id'], len(r['report_descriptions'])) for r in reports]
    out = w.call('openleadr.preflight.preflight_message', 'oadrRegisterReport', p)
    w.check('all reports, in order', w.all_(len(out['reports']) == n, w.eq(out['ven_id'], p['ven_id'])))
    for i in range(n):
        r = out['reports'][i]
        plain = w.any_(names[i] == 'x-own', names[i] == 'METADATA_TELEMETRY_USAGE', names[i] == 'METADATA_HISTORY_USAGE')
        w.check('named METADATA', r['report_name'] == (names[i] if plain else 'METADATA_' + names[i]))
        rd = r['report_descriptions'][-1]
        w.check('ids kept', w.all_(r['report_specifier_id'] == ids[i][0], rd['r_id'] == ids[i][1],
                                   len(r['report_descriptions']) == ids[i][2]))
        if ids[i][2] == 2: w.check('the other datapoint', r['report_descriptions'][0]['measurement']['ns'] == 'power')
        q = quantities[i]
        if q == 2:
            w.check('voltage is in the power namespace', w.all_(rd['measurement']['ns'] == 'power',
                                                                rd['measurement']['description'] == 'Voltage'))
        if q == 3:
            w.check('current is in the oadr namespace', w.all_(rd['measurement']['ns'] == 'oadr',
                                                               rd['measurement']['description'] == 'Current'))
        if q == 4:
            w.check('own quantities are customUnit', w.all_(rd['measurement']['ns'] == 'oadr',
                                                            rd['measurement']['name'] == 'customUnit',
                                                            rd['measurement']['description'] == 'flux'))


SCHEMA_NS = {'currency': 'oadr', 'currencyPerKW': 'oadr', 'currencyPerKWh': 'oadr', 'currencyPerThm': 'oadr',
             'current': 'oadr', 'energyApparent': 'power', 'energyReactive': 'power', 'energyReal': 'power',
             'frequency': 'oadr', 'powerApparent': 'power', 'powerReactive': 'power', 'powerReal': 'power',
             'pulseCount': 'oadr', 'temperature': 'oadr', 'Therm': 'oadr', 'voltage': 'power', 'customUnit': 'oadr'}


@contract('C21', targets=['objects.Measurement.__post_init__', 'enums.MEASUREMENTS'], samples=200)
def measurement_objects(w):
    """Measurement objects carry a name the schema has and the namespace that goes with it."""
    i = w.choice('name', len(SCHEMA_NS) + 1)
    names = list(SCHEMA_NS)
    name = names[i] if i < len(names) else w.make('x', Id(pool=['Flux', 'powerX', 'Voltage'], avoid=tuple(names)))
    m = w.call(objects.Measurement, name, w.make('d', Id()), w.make('u', Id()))
    w.check('the name', m.name == (name if i < len(names) else 'customUnit'))
    w.check('the namespace', m.ns == SCHEMA_NS[m.name])
    k = w.choice('known', len(MEMBERS))
    m = named(k)
    w.check('known measurements validate', w.try_call('openleadr.utils.validate_report_measurement_dict',
            {'name': m.name, 'description': m.description, 'unit': m.unit,
             'power_attributes': {'hertz': w.make('hertz', Int(0, 400, pool=[0, 50])), 'voltage': 230, 'ac': w.flag('ac')}}).raised is None)
    w.check('known measurements are in their namespace', m.ns == SCHEMA_NS[m.name])


# ---------------------------------------------------------------------------------------------- C20
def make_signal(w, name, n):
    ivs = []
    for j in range(n):
        q = name + '.' + str(j)
        iv = {'dtstart': w.make(q + '.start', DT()), 'duration': w.make(q + '.dur', Dur(1, 86400)),
              'signal_payload': w.make(q + '.value', Real(-1, 5, pool=[0, 1, 2, 3, 2.5, 3.0, 0.5, -1, 4]))}
        ivs.append(iv)
    s = {'signal_name': w.make(name + '.name', Enum('SIMPLE', 'LOAD_CONTROL', 'simple')), 'signal_type': 'level',
         'signal_id': w.make(name + '.id', Id()), 'intervals': ivs}
    if w.flag(name + '.cv?'):
        s['current_value'] = w.make(name + '.cv', Real(-1, 5, pool=[0, 1, 2, 3, 0.5, -1]))
    return s


@contract('C20', targets=['preflight._preflight_oadrDistributeEvent', 'preflight.preflight_message'], samples=600, budget=250)
def distribute_event_preflight(w):
    """Outgoing events have signals that cover the active period and allowed SIMPLE levels, or they are not sent;
    nothing of an event that was in order is changed."""
    now = w.freeze()
    ns = 1 + w.size('signals', 2, 3)
    signals = [make_signal(w, 's' + str(i), 1 + w.choice('n' + str(i), 2)) for i in range(ns)]
    status = w.make('status', Enum('far', 'near', 'active', 'completed', 'cancelled'))
    ap = {'dtstart': w.make('start', DT()), 'duration': w.make('dur', Dur(0, 86400 * 2))}
    cdt = w.make('cdt', Opt(DT()))
    ev = {'event_descriptor': {'event_id': w.make('id', Id()), 'event_status': status, 'modification_number': 1,
                               'created_date_time': cdt},
          'active_period': ap, 'event_signals': signals,
          'targets': [{'ven_id': 'v1'}], 'targets_by_type': {'ven_id': ['v1']}}
    rr = w.choice('rr', 4)
    if rr > 0:
        ev['response_required'] = [None, 'always', 'never', 'sometimes'][rr]
    before = w.deepcopy(ev)
    o = w.try_call('openleadr.preflight.preflight_message', 'oadrDistributeEvent', {'events': [ev], 'vtn_id': 'v'})
    totals = []
    for s in before['event_signals']:
        t = timedelta(0)
        for iv in s['intervals']:
            t = t + iv['duration']
        totals.append(t)
    bad_level = False
    for s in before['event_signals']:
        for iv in s['intervals']:
            bad_level = w.any_(bad_level, w.all_(s['signal_name'] == 'SIMPLE',
                                                 w.not_(w.any_(*[iv['signal_payload'] == k for k in range(4)]))))
    differ = w.not_(w.all_(*[t == totals[0] for t in totals]))
    if w.any_(bad_level, differ):
        w.check('refused', o.is_a(ValueError))
    else:
        w.check('sent', o.raised is None)
        e = o.value['events'][0]
        w.check('the active period covers the signals', w.all_(e['active_period']['duration'] == totals[0],
                                                               e['active_period']['dtstart'] == before['active_period']['dtstart']))
        for i in range(ns):
            a = e['event_signals'][i]
            b = before['event_signals'][i]
            w.check('signals are sent as they are', w.all_(a['intervals'] == b['intervals'], a['signal_id'] == b['signal_id'],
                                                           a['signal_name'] == b['signal_name']))
            if 'current_value' in b:
                zero = w.all_(b['signal_name'] == 'SIMPLE', status != 'active')
                w.check('current value', a['current_value'] == w.ite(zero, 0, b['current_value']))
        w.check('response required', e['response_required'] == ('never' if rr == 2 else 'always'))
        w.check('created', w.eq(e['event_descriptor']['created_date_time'], now if cdt is None else cdt))
        w.check('descriptor', w.all_(e['event_descriptor']['event_id'] == before['event_descriptor']['event_id'],
                                     e['event_descriptor']['event_status'] == status,
                                     e['event_descriptor']['modification_number'] == 1))


@contract('C20', targets=['preflight._preflight_oadrDistributeEvent'], samples=300)
def distribute_event_targets(w):
    """Targets given in both forms must agree; given in one form the other is derived."""
    a = w.make('a', Id(pool=['v1', 'v2']))
    b = w.make('b', Id(pool=['v1', 'v2']))
    form = w.choice('form', 3)
    ev = {'event_descriptor': {'event_id': 'e', 'event_status': 'far', 'modification_number': 0,
                               'created_date_time': w.make('c', DT())},
          'active_period': {'dtstart': w.make('s', DT()), 'duration': timedelta(hours=1)},
          'event_signals': [{'signal_name': 'x-s', 'signal_type': 'level', 'signal_id': 'i', 'intervals':
                             [{'dtstart': w.make('is', DT()), 'duration': timedelta(hours=1), 'signal_payload': 1}]}]}
    if form != 1:
        ev['targets'] = [{'ven_id': a}, {'ven_id': b}]
    if form != 0:
        ev['targets_by_type'] = {'ven_id': [b, a] if form == 1 else [[a, b], [b, a], [a, 'v3'], [a]][w.choice('other', 4)]}
    tb = w.deepcopy(ev.get('targets_by_type'))
    o = w.try_call('openleadr.preflight.preflight_message', 'oadrDistributeEvent', {'events': [ev]})
    if form == 2:
        if tb['ven_id'] == [a, b]:
            w.check('accepted if they agree', o.raised is None)
        elif tb['ven_id'] != [b, a]:
            w.check('refused if they do not', o.is_a(ValueError))
    else:
        w.check('accepted', o.raised is None)
        e = o.value['events'][0]
        w.check('targets', e['targets'] == ([{'ven_id': a}, {'ven_id': b}] if form == 0 else [{'ven_id': b}, {'ven_id': a}]))
