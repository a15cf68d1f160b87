"""Witnesses of the known findings (known-findings.txt): each returns True while the defect is there."""
from pyvc.api import finding
from datetime import datetime, timedelta, timezone


def through(message_type, **payload):
    from openleadr import messaging
    return messaging.parse_message(messaging.create_message(message_type, **payload))[1]


def event(**kw):
    from openleadr import objects
    now, minute = datetime(2030, 1, 1, tzinfo=timezone.utc), timedelta(minutes=1)
    sig = objects.EventSignal(intervals=[objects.Interval(dtstart=now, duration=minute, signal_payload=1)], signal_name='LOAD_CONTROL',
                              signal_type='level', signal_id='s', targets=kw.pop('signal_targets', None))
    return objects.Event(event_descriptor=objects.EventDescriptor(event_id='e', modification_number=0, market_context='http://m', event_status='far'),
                         event_signals=[sig], targets=kw.pop('targets', [objects.Target(ven_id='v')]),
                         active_period=objects.ActivePeriod(dtstart=now, duration=minute), response_required='always')


@finding('digit-ids', 'C25', "identifiers of digits only arrive as numbers, without their leading zeros ('007' as 7)")
def digit_ids():
    return through('oadrPoll', ven_id='007')['ven_id'] != '007'


@finding('boolean-ids', 'C25', "texts that are 'true' or 'false' arrive as booleans")
def boolean_ids():
    return through('oadrPoll', ven_id='true')['ven_id'] != 'true'


@finding('event-target-kinds', 'C25', 'event targets other than groups, resources, VENs and parties are not in the message')
def event_target_kinds():
    from openleadr import objects
    e = through('oadrDistributeEvent', request_id='r', vtn_id='v', events=[event(targets=[objects.Target(p_node=objects.PNode(node='n'))])])
    return not e['events'][0].get('targets')


@finding('signal-targets', 'C25', 'the targets of an event signal are not in the message')
def signal_targets():
    from openleadr import objects
    t = [objects.Target(end_device_asset=objects.EndDeviceAsset(mrid='Thermostat'))]
    e = through('oadrDistributeEvent', request_id='r', vtn_id='v', events=[event(signal_targets=t)])
    return not e['events'][0]['event_signals'][0].get('targets')


@finding('availability-shape', 'C25', 'several availability components of an opt arrive nested differently from a single one')
def availability_shape():
    from openleadr import objects
    now, minute = datetime(2030, 1, 1, tzinfo=timezone.utc), timedelta(minutes=1)
    part = objects.VavailabilityComponent(dtstart=now, duration=minute)
    p = dict(opt_id='o', opt_type='optIn', opt_reason='economic', created_date_time=now, request_id='r', ven_id='v', targets=[{'ven_id': 'v'}])
    one = through('oadrCreateOpt', vavailability=objects.Vavailability(components=[part]), **p)['vavailability']['components']['available']
    two = through('oadrCreateOpt', vavailability=objects.Vavailability(components=[part, part]), **p)['vavailability']['components']['available']
    return two not in ([one, one], [one[0], one[0]] if isinstance(one, list) else None)


@finding('cron-subsecond', 'C27', 'intervals of less than a second give a schedule that the scheduler refuses')
def cron_subsecond():
    from apscheduler.schedulers.asyncio import AsyncIOScheduler
    from openleadr import utils
    try:
        AsyncIOScheduler(timezone='UTC').add_job(print, trigger='cron', **utils.cron_config(timedelta(milliseconds=500)))
    except ValueError:
        return True
    return False
