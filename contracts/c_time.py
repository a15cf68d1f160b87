from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums

PERIOD = dict(dtstart=DT(), duration=Dur())


def spec_status(w, now, start, dur, ramp):
    """The OpenADR event status at time `now` (ramp: None or a timedelta)."""
    near = False if ramp is None else now >= start - ramp
    return w.ite(w.all_(now >= start + dur, dur > timedelta(0)), 'completed',
                 w.ite(now >= start, 'active', w.ite(near, 'near', 'far')))


def period_of(w, name):
    start = w.make(name + '.dtstart', DT())
    dur = w.make(name + '.duration', Dur())
    ramp = w.make(name + '.ramp', Opt(Dur()))
    if w.choice(name + '.kind', 2) == 0:
        d = {'dtstart': start, 'duration': dur}
        key = w.choice(name + '.rampkey', 3)
        if key == 0:
            d['ramp_up_period'] = ramp
        elif ramp is not None:
            # what it is called in an event that was received; an application may leave the other one in as None
            d['ramp_up'] = ramp
            if key == 2:
                d['ramp_up_period'] = None
        return d, start, dur, ramp
    return objects.ActivePeriod(dtstart=start, duration=dur, ramp_up_period=ramp), start, dur, ramp


@contract('C01', targets=['utils.determine_event_status'])
def status_of_time(w):
    now = w.freeze()
    ap, start, dur, ramp = period_of(w, 'ap')
    r = w.call('openleadr.utils.determine_event_status', ap)
    w.check('status is the specified function of time', r == spec_status(w, now, start, dur, ramp))
    w.check('dtstart kept', utils.getmember(ap, 'dtstart') == start)


@contract('C01', targets=['utils.determine_event_status', 'utils.setmember'])
def status_of_naive_time(w):
    """A start without a timezone is local time, and is made explicit."""
    now = w.freeze()
    start = w.make('dtstart', DT(aware=False))
    at = start.astimezone(timezone.utc)
    dur = w.make('duration', Dur())
    ramp = w.make('ramp', Opt(Dur()))
    if w.choice('kind', 2) == 0:
        ap = {'dtstart': start, 'duration': dur, 'ramp_up_period': ramp}
    else:
        ap = objects.ActivePeriod(dtstart=start, duration=dur, ramp_up_period=ramp)
    r = w.call('openleadr.utils.determine_event_status', ap)
    w.check('status is the specified function of time', r == spec_status(w, now, at, dur, ramp))
    got = utils.getmember(ap, 'dtstart')
    w.check('the start has a timezone', got.tzinfo is not None)
    w.check('the start is kept', got == at)
