from pyvc.api import *
from datetime import datetime, timedelta, timezone
from openleadr import objects, utils, enums

ATOM = Id(pool=['p', 'q', 'r'])
ITEM = OneOf(
    Dict(a=Maybe(Dict(b=Maybe(ATOM, p=.8), c=Maybe(ATOM))), b=Maybe(ATOM), d=Maybe(ATOM), n=Int(0, 3)),
    Obj(objects.EventDescriptor, event_id=ATOM, modification_number=Int(0, 3), market_context=ATOM))


def has_path(w, item, path):
    """(present, value) of a dotted path"""
    for key in path:
        if isinstance(item, dict):
            if key not in item:
                return False, None
            item = item[key]
        else:
            return False, None
    return True, item


def matches(w, item, path, value):
    p, v = has_path(w, item, path)
    if not p:
        return False
    if isinstance(value, tuple):
        return w.any_(*[v == x for x in value])
    return v == value


def search_value(w, name):
    k = w.choice(name + '.kind', 3)
    if k == 0: return w.make(name + '.v', ATOM)
    if k == 1: return (w.make(name + '.v', ATOM), w.make(name + '.v2', ATOM))
    return ()


PATHS = (('a.b', ('a', 'b')), ('b', ('b',)), ('a.c', ('a', 'c')))


@contract('C22', 'C05', targets=['utils.find_by'])
def find_by_first_match(w):
    n = w.size('n', 4)
    items = [w.make('i' + str(k), Dict(a=Maybe(Dict(b=Maybe(ATOM, p=.8), c=Maybe(ATOM))), b=Maybe(ATOM)))
             for k in range(n)]
    two = w.choice('two', 2) == 1
    if two:
        p1, path1, v1 = 'a.b', ('a', 'b'), w.make('v1', ATOM)
        p2, path2, v2 = 'b', ('b',), w.make('v2', ATOM)
        args = [p1, v1, p2, v2]
        coll = list(items)
    else:
        p1, path1 = PATHS[w.choice('path1', 3)]
        v1 = search_value(w, 'v1')
        args = [p1, v1]
        coll = {str(k): items[k] for k in range(n)} if w.choice('as_dict', 2) == 1 else list(items)
    before = w.deepcopy(items)
    r = w.call('openleadr.utils.find_by', coll, *args)
    want = None
    for it in items:
        ok = matches(w, it, path1, v1)
        if two:
            ok = w.all_(ok, matches(w, it, path2, v2))
        if ok:
            want = it
            break
    w.check('the first item that satisfies every condition, else None', w.same(r, want))
    w.check('nothing is changed', w.eq(items, before))


def descriptor_event(w, name):
    eid = w.make(name + '.id', ATOM)
    mod = w.make(name + '.mod', Int(0, 3))
    if w.choice(name + '.as', 2) == 1:
        ed = w.new(objects.EventDescriptor, event_id=eid, modification_number=mod, market_context='m',
                   event_status='far', created_date_time=None, modification_date_time=None, priority=0,
                   test_event=False, vtn_comment=None)
        return w.new(objects.Event, event_descriptor=ed, event_signals=[], targets=[], targets_by_type={},
                     active_period=None, response_required='always')
    return {'event_descriptor': {'event_id': eid, 'modification_number': mod}}


@contract('C22', 'C05', targets=['utils.find_by', 'utils.hasmember', 'utils.getmember'])
def find_by_events(w):
    n = w.size('n', 4)
    items = [descriptor_event(w, 'e' + str(k)) for k in range(n)]
    eid = w.make('eid', ATOM)
    mod = w.make('mod', Int(0, 3))
    r = w.call('openleadr.utils.find_by', items, 'event_descriptor.event_id', eid,
               'event_descriptor.modification_number', mod)
    want = None
    for it in items:
        d = utils.getmember(it, 'event_descriptor')
        if w.all_(utils.getmember(d, 'event_id') == eid, utils.getmember(d, 'modification_number') == mod):
            want = it
            break
    w.check('the first event with this id and modification number', w.same(r, want))


@contract('C22', targets=['utils.find_by', 'utils.hasmember', 'utils.getmember'])
def find_by_objects(w):
    """Objects have all their fields, whatever is in them; dicts only the keys that are there."""
    n = w.size('n', 3)
    items = []
    vals = []
    for k in range(n):
        v = w.make('v' + str(k), Opt(ATOM))
        kind = w.choice('kind' + str(k), 3)
        if kind == 0:
            items.append(w.new(objects.EventDescriptor, event_id='e', modification_number=0, market_context='m',
                               event_status='far', created_date_time=None, modification_date_time=None, priority=0,
                               test_event=False, vtn_comment=v))
        elif kind == 1:
            items.append({'vtn_comment': v})
        else:
            items.append({'other': v})
        vals.append((kind < 2, v))
    many = w.choice('many', 2) == 1
    x = w.make('x', Opt(ATOM))
    y = w.make('y', Opt(ATOM))
    r = w.call('openleadr.utils.find_by', items, 'vtn_comment', (x, y) if many else x)
    want = None
    for k in range(n):
        has, v = vals[k]
        if has and w.any_(w.eq(v, x), many and w.eq(v, y)):
            want = items[k]
            break
    w.check('the first item with this value', w.same(r, want))


@contract('C22', 'C04', targets=['utils.pop_by'])
def pop_by_removes_that_item(w):
    n = w.size('n', 4)
    items = [descriptor_event(w, 'e' + str(k)) for k in range(n)]
    eid = w.make('eid', ATOM)
    old = list(items)
    two = w.flag('two')
    mod = w.make('mod', Int(0, 3))
    more = ['event_descriptor.modification_number', mod] if two else []
    r = w.call('openleadr.utils.pop_by', items, 'event_descriptor.event_id', eid, *more)
    first = None
    for k in range(n):
        if first is None and utils.getmember(old[k], 'event_descriptor.event_id') == eid:
            if not two or utils.getmember(old[k], 'event_descriptor.modification_number') == mod:
                first = k
    if first is None:
        w.check('nothing found, nothing removed', w.all_(r is None, len(items) == n))
        w.check('order kept', w.all_(*[w.same(items[k], old[k]) for k in range(n)]))
    else:
        w.check('the first match is returned', w.same(r, old[first]))
        w.check('one item less', len(items) == n - 1)
        if len(items) == n - 1:
            rest = old[:first] + old[first + 1:]
            w.check('the others stay, in order', w.all_(*[w.same(items[k], rest[k]) for k in range(n - 1)]))


@contract('C22', 'C12', targets=['utils.group_by'])
def group_by_partitions(w):
    n = w.size('n', 5)
    nested = w.choice('nested', 2) == 1
    items = []
    keys = []
    for k in range(n):
        v = w.make('k' + str(k), ATOM)
        keys.append(v)
        items.append({'x': {'y': v}, 'z': k} if nested else {'y': v, 'z': k})
    r = w.call('openleadr.utils.group_by', items, 'x.y' if nested else 'y')
    seen = 0
    for key, group in r.items():
        w.check('no empty group', len(group) > 0)
        seen = seen + len(group)
        last = -1
        for g in group:
            j = g['z']
            w.check('in the group of its key', w.all_(w.same(g, items[j]), keys[j] == key))
            w.check('order kept', j > last)
            last = j
    w.check('every item in exactly one group', seen == n)


MEMB = Dict(a=Maybe(Dict(b=Maybe(Dict(c=Maybe(ATOM)))), p=.8))


@contract('C22', targets=['utils.getmember'])
def getmember_paths(w):
    d = w.make('d', Dict(a=Maybe(Dict(b=Maybe(Dict(c=Maybe(ATOM, p=.8)), p=.8)), p=.8)))
    depth = w.choice('depth', 3) + 1
    path = ('a', 'b', 'c')[:depth]
    dotted = '.'.join(path)
    present, value = has_path(w, d, path)
    default = w.make('default', OneOf(Const(None), Id(pool=['p', 'q'], avoid=('_RAISE_',)), Int(0, 9)))
    if w.choice('with_default', 2) == 1:
        r = w.call('openleadr.utils.getmember', d, dotted, default)
        w.check('the member if it is there, else the default', w.same(r, value) if present else w.eq(r, default))
    else:
        o = w.try_call('openleadr.utils.getmember', d, dotted)
        if present:
            w.check('the member', w.all_(o.raised is None, w.same(o.value, value)))
        else:
            w.check('a missing member is an error', o.is_a(KeyError))


@contract('C22', targets=['utils.getmember', 'utils.setmember', 'utils.hasmember'])
def members_of_objects(w):
    v = w.make('v', ATOM)
    x = w.make('x', ATOM)
    obj = w.choice('obj', 2) == 1
    if obj:
        e = w.new(objects.Event, event_descriptor=w.new(objects.EventDescriptor, event_id=v, modification_number=0),
                  active_period={'dtstart': v}, targets=[])
    else:
        e = {'event_descriptor': w.new(objects.EventDescriptor, event_id=v, modification_number=0),
             'active_period': {'dtstart': v}, 'targets': []}
    w.check('has', utils.hasmember(e, 'event_descriptor'))
    w.check('has not', w.not_(utils.hasmember(e, 'nonsense')))
    w.check('reads through objects', w.call('openleadr.utils.getmember', e, 'event_descriptor.event_id') == v)
    w.check('reads through dicts', w.call('openleadr.utils.getmember', e, 'active_period.dtstart') == v)
    w.check('default', w.call('openleadr.utils.getmember', e, 'nonsense', 5) == 5)
    w.check('nested default', w.call('openleadr.utils.getmember', e, 'event_descriptor.nonsense', None) is None)
    w.call('openleadr.utils.setmember', e, 'event_descriptor.event_id', x)
    w.check('written', utils.getmember(e, 'event_descriptor.event_id') == x)
    w.check('only that member', w.all_(utils.getmember(e, 'active_period.dtstart') == v,
                                       utils.getmember(e, 'event_descriptor.modification_number') == 0))
    w.call('openleadr.utils.setmember', e, 'active_period.dtstart', x)
    w.check('written in the dict', utils.getmember(e, 'active_period.dtstart') == x)
    w.call('openleadr.utils.setmember', e, 'targets', [x])
    w.check('top level', utils.getmember(e, 'targets') == [x])


@contract('C22', 'C23', targets=['utils.increment_event_modification_number'])
def modification_number_increments(w):
    m = w.make('m', Int(0))
    as_obj = w.choice('obj', 2) == 1
    if as_obj:
        e = w.new(objects.Event, event_descriptor=w.new(objects.EventDescriptor, event_id='e', modification_number=m))
    else:
        e = {'event_descriptor': {'event_id': 'e', 'modification_number': m}}
    r = w.call('openleadr.utils.increment_event_modification_number', e)
    w.check('one higher', r == m + 1)
    w.check('stored', utils.getmember(e, 'event_descriptor.modification_number') == m + 1)
    w.check('id kept', utils.getmember(e, 'event_descriptor.event_id') == 'e')
