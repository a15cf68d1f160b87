"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), note='', level='proof', na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  state=state, note=note, level=level, na=na))


prop('C01', 'Event status is the correct function of time',
     "For every active period and instant the event status is 'completed' from the end of the period on, 'active' from its start, 'near' within the ramp-up time before the start, and 'far' before that. A period of zero duration is open-ended and never completes, and an event without a ramp-up period is never 'near'.",
     ['inputs', 'configurations'], 'every start, duration, ramp-up and current time',
     'Tests fix a handful of offsets around one wall-clock instant; the boundaries (equal to the microsecond, zero durations, missing ramp-up) need every input.',
     ['openleadr/utils.py'], [('determine_event_status', 'openleadr/utils.py')])

prop('C02', 'Events are ordered by status, priority and start',
     "Ordering a list of events returns exactly those events: active ones first, by ascending priority (priority 0 or none is the lowest) and then by start; the others follow by start. The status stored in each event is brought up to date on the way, cancelled events stay cancelled, and the given list itself is left alone.",
     ['inputs'], 'every list of events (objects or dictionaries), priorities, statuses and clock values',
     'Tests sort two or three fixed lists; the comparison must be a consistent order for every mix of statuses, priorities and equal starts.',
     ['openleadr/utils.py'], [('order_events', 'openleadr/utils.py'), ('determine_event_status', 'openleadr/utils.py')])

prop('C03', 'No added, changed or cancelled event is lost in polling',
     "An event that was added, changed or cancelled on the VTN for a VEN is announced to that VEN at its next poll, also when the change happens while an earlier delivery is under way or when an earlier delivery failed. A VEN without changes gets an empty response, and polls of other VENs do not consume its update. What a user supplied on_poll handler returns is sent as the message it stands for.",
     ['histories', 'schedules', 'inputs'], 'every order of add/cancel/poll, with changes injected at every await of a delivery, and every on_poll result',
     'Tests add one event and poll once or twice; the lost-update needs a change in the middle of a delivery.',
     ['openleadr/service/poll_service.py', 'openleadr/server.py', 'openleadr/service/event_service.py'],
     [('PollService.poll', 'openleadr/service/poll_service.py'), ('EventService.request_event', 'openleadr/service/event_service.py'), ('OpenADRServer.add_raw_event / cancel_event', 'openleadr/server.py')],
     [('events_updated', 'VEN has changes it has not been sent', 'EventService / PollService / OpenADRServer')])

prop('C04', 'Event lifecycle on the VTN',
     "When a VEN asks for its events it gets all events stored for it, in order and with their current status; completed events are delivered one last time and then leave the queue, confirmed cancellations leave it too, and other events, VENs and callbacks are untouched. An answer to a queued event is accepted in any status, an answer to an event that was already completed is accepted, and an answer to an unknown event is refused without side effects.",
     ['inputs', 'histories'], 'every stored set of events, clock value, and reply',
     'Tests use a single future event; the removal of finished events depends on status, clock and list position.',
     ['openleadr/service/event_service.py', 'openleadr/utils.py'],
     [('EventService.request_event', 'openleadr/service/event_service.py'), ('EventService.created_event', 'openleadr/service/event_service.py'), ('pop_by', 'openleadr/utils.py')])

prop('C05', 'Opt responses reach the right event callback exactly once',
     "Each opt response in an oadrCreatedEvent is passed once, with the VEN, event id and opt type, to the callback or future that belongs to that event, and never to another event's callback. A second response to the same event reaches no callback, and with user-managed events every response of the message reaches the on_created_event handler in order.",
     ['inputs', 'histories'], 'every message with any number of event responses and any set of pending events',
     'Tests answer one event at a time with one callback kind.',
     ['openleadr/service/event_service.py', 'openleadr/server.py'], [('EventService.created_event', 'openleadr/service/event_service.py')])

prop('C06', 'Only authenticated VENs reach the VTN handlers',
     "Over TLS (with a fingerprint or VEN lookup configured), no handler runs for a message of a VEN unless the fingerprint on file for that VEN matches the client certificate and, when signatures are verified, what is used of the message is validly signed by the matching certificate, and fresh. Only a query or a first registration may come from nobody in particular. Everything else is refused with an authorization error (or HTTP 403), and a genuine message is let through.",
     ['inputs', 'configurations'], 'every combination of certificate, fingerprint lookup result, signature outcome, ven_id and server configuration',
     'Tests cover one good and one wrong fingerprint; the gate has a case for every way a lookup, comparison or signature can fail.',
     ['openleadr/messaging.py', 'openleadr/service/vtn_service.py'],
     [('authenticate_message', 'openleadr/messaging.py'), ('validate_xml_signature', 'openleadr/messaging.py'), ('VTNService.handler', 'openleadr/service/vtn_service.py')])

prop('C07', 'Replayed messages are refused',
     "A signed message is accepted at most once: a repeated nonce within the window is refused whatever messages come in between, a message outside the window or without timestamp or nonce is refused, and a fresh message with an unseen nonce is accepted. The set of remembered nonces never drops an entry that could still be replayed.",
     ['histories', 'inputs', 'schedules'], 'every history of messages, nonces, timestamps and clock readings',
     'Tests replay one message immediately; the window boundary and cache eviction depend on the history and the clock.',
     ['openleadr/messaging.py'], [('_verify_replay_protect', 'openleadr/messaging.py'), ('_update_nonce_cache', 'openleadr/messaging.py')],
     [('NONCE_CACHE', 'recently seen (timestamp, nonce) pairs', 'openleadr/messaging.py')])

prop('C08', 'The VEN acts only on valid messages from the VTN',
     "The VEN passes on an answer only if it came with HTTP 200, validates, parses and - with a configured VTN fingerprint - has a valid, fresh signature by that certificate; anything else, including connection failures, is treated as no answer and raises nothing.",
     ['inputs', 'fault_sequences', 'configurations'], 'every HTTP status, network failure, parse or signature outcome, and configuration',
     'Tests talk to a well-behaved VTN only.',
     ['openleadr/client.py', 'openleadr/messaging.py'], [('OpenADRClient._perform_request', 'openleadr/client.py'), ('validate_xml_signature', 'openleadr/messaging.py')])

prop('C09', 'Every request to the VTN gets the answer the protocol defines',
     "Malformed requests are answered 400; a request for another VTN or from an unknown VEN never reaches a handler; every other request reaches the handler of its message type and no other. A protocol error raised while handling becomes an OpenADR message with its code and description, an HTTP error its status, any other failure status 500, and successful answers carry the request id, this VTN's id and the VEN's id. Every request gets exactly one answer.",
     ['inputs', 'fault_sequences'], 'every message type, payload identity, content type, parse failure and exception raised by a handler',
     'Tests send a few wrong messages; the mapping has a branch per failure and message type.',
     ['openleadr/service/vtn_service.py', 'openleadr/errors.py'],
     [('VTNService.handler', 'openleadr/service/vtn_service.py'), ('handle_message', 'openleadr/service/vtn_service.py'), ('error_response', 'openleadr/service/vtn_service.py')])

prop('C10', 'Registration gives the VEN the identity the VTN decided',
     "When the application accepts a VEN, the VTN tells it exactly the ids it was given, and after registering the VEN uses exactly that identity and the requested poll frequency; a refusal gives no registration and leaves the VEN as it was. A reregistration request makes the VEN register again, offer its reports again and fetch its events under the new identity, or stop if it is refused.",
     ['inputs', 'histories'], 'every handler result, response and history of registrations',
     'Tests register once with fixed ids.',
     ['openleadr/service/registration_service.py', 'openleadr/client.py'],
     [('RegistrationService', 'openleadr/service/registration_service.py'), ('create_party_registration', 'openleadr/client.py'), ('create_party_reregistration', 'openleadr/client.py')])

prop('C11', 'Report registration requests exactly what the application wants',
     "For the reports a VEN offers, the VTN asks the application once about every datapoint and requests exactly those for which it returned a valid (callback, sampling interval) answer, at the shortest of the sampling intervals, one request per report, and remembers the callbacks for the data. An invalid answer for one datapoint does not affect the others.",
     ['inputs'], 'every report offer, compact or full, and every handler result',
     'Tests register one report with identical choices for each datapoint.',
     ['openleadr/service/report_service.py', 'openleadr/utils.py'],
     [('ReportService.register_report', 'openleadr/service/report_service.py'), ('validate_report_request_tuples', 'openleadr/utils.py')],
     [('report_callbacks', 'who gets the data of (report request, r_id)', 'openleadr/service/report_service.py')])

prop('C12', 'Report data reaches the callback registered for it',
     "Every value in a report from a VEN is passed, with its timestamp and in order, exactly once to the callback registered for its report request and datapoint, and several reports in one message are kept apart. If no callback was ever registered, each report is passed once to the general handler.",
     ['inputs'], 'every report message: any mix of reports, datapoints, values and registered callbacks',
     'Tests send single-datapoint reports.',
     ['openleadr/service/report_service.py', 'openleadr/utils.py'],
     [('ReportService.update_report', 'openleadr/service/report_service.py'), ('group_by', 'openleadr/utils.py')])

prop('C13', 'Requested reports are scheduled as requested',
     "When the VTN requests a report, the VEN takes up exactly the requested datapoints that it offers (with matching measurement, unit and sampling rate), samples them at the requested interval or once at the requested time, and keeps several requests in one message apart. It confirms all requests with one message; a request for an invalid report is refused.",
     ['inputs', 'histories'], 'every report request message and set of offered reports',
     'Tests request one report with one interval.',
     ['openleadr/client.py'], [('create_report', 'openleadr/client.py')],
     [('report_requests', 'requests being served, with their jobs', 'openleadr/client.py')])

prop('C14', 'Report values are neither lost nor duplicated',
     "Each value sampled for a report is sent exactly once, with its timestamp, in the report of its own request, and a report is sent exactly when it holds all values of its reporting interval. Queued reports are all sent in order, also when the VTN could not be reached for one of them.",
     ['histories', 'inputs', 'fault_sequences'], 'every number of datapoints, samplings per interval, callback result and sending failure',
     'Tests run real-time for a few seconds with one interval ratio.',
     ['openleadr/client.py'], [('update_report', 'openleadr/client.py'), ('_report_queue_worker', 'openleadr/client.py')],
     [('incomplete_reports', 'values collected so far per request', 'openleadr/client.py'), ('pending_reports', 'reports to send', 'openleadr/client.py')])

prop('C15', 'The VEN answers every event that needs an answer, once and correctly',
     "For each event in a message the handler that applies (new or changed event) is called when and only when it is due, and the answer sent to the VTN carries that event's id, modification number and the handler's decision; invalid decisions and failing handlers count as optOut. An event redelivered unchanged gets the same answer again without asking the handler, and one event's failure never affects the answers for others.",
     ['inputs', 'histories'], 'every event message, known-event state and handler behaviour',
     'Tests deliver one event with a well-behaved handler.',
     ['openleadr/client.py'], [('_on_event', 'openleadr/client.py')],
     [('received_events', 'events known to the VEN', 'openleadr/client.py'), ('responded_events', 'decisions taken', 'openleadr/client.py')])

prop('C16', 'The VEN keeps its list of events in step with time',
     "The periodic clean-up forgets exactly the events that are over and keeps all others together with their decisions, and the status the VEN shows for an event follows the clock while cancelled events stay cancelled.",
     ['inputs', 'histories'], 'every list of known events and clock value',
     'Tests wait for one event to complete.',
     ['openleadr/client.py', 'openleadr/utils.py'], [('_event_cleanup', 'openleadr/client.py'), ('_event_status_log', 'openleadr/client.py')])

prop('C19', 'Targets and targets-by-type always agree',
     "Grouping targets by type and ungrouping them again preserves exactly the same targets, and an event, signal or opt given both forms is accepted only if they describe the same targets and otherwise derives one from the other. Device class targets are kept in the form the protocol has.",
     ['inputs'], 'every list of targets of every kind, in both representations',
     'Tests use one or two target kinds.',
     ['openleadr/utils.py', 'openleadr/objects.py'], [('group_targets_by_type / ungroup_targets_by_type', 'openleadr/utils.py'), ('Event/EventSignal/Opt.__post_init__', 'openleadr/objects.py')])

prop('C22', 'Lookups in collections find exactly the right item',
     "Looking up by field values returns the first item that has all of them (also for nested fields, and in lists of dictionaries as well as objects), and nothing if there is none; removing takes away that item only; grouping yields a partition that keeps order. A missing field is no match and never an error.",
     ['inputs'], 'every collection, item kind, key path and value',
     'Tests look up present keys in two-item collections.',
     ['openleadr/utils.py'], [('find_by, pop_by, group_by, getmember, setmember, hasmember', 'openleadr/utils.py')])

prop('C23', 'An event added on the VTN is stored, offered and confirmed consistently',
     "Adding an event through any of the ways the API offers stores one event with the given signals, an active period that covers all signal intervals, the given targets, and the response-required and callback settings; inconsistent input is refused and leaves nothing behind. Cancelling marks exactly that event cancelled with a higher modification number.",
     ['inputs', 'histories'], 'every event definition, set of stored events and argument combination',
     'Tests add one event with one signal.',
     ['openleadr/server.py', 'openleadr/utils.py', 'openleadr/objects.py'],
     [('OpenADRServer.add_event / add_raw_event / cancel_event', 'openleadr/server.py'), ('get_active_period_from_intervals', 'openleadr/utils.py')])

prop('C26', 'Opts, report cancellations and deregistration take effect exactly once',
     "Opts are sent as given and forgotten only when the VTN acknowledges their cancellation; cancelling a report stops it, reports one last time if asked and leaves other reports running; a registration ends only when both sides agree, and the VTN confirms to a VEN that leaves. Messages about something else change nothing, and each confirmation is sent once.",
     ['inputs', 'histories'], 'every opt, cancellation message and answer of the VTN',
     'Tests cancel one report of one.',
     ['openleadr/client.py'], [('create_opt / cancel_opt', 'openleadr/client.py'), ('cancel_report', 'openleadr/client.py'), ('cancel_party_registration / on_cancel_party_registration', 'openleadr/client.py')])

prop('C28', 'Hooks see every message and can break nothing',
     "Every hook registered for a hook point is called once with the data of that point (in order, on the client), and no other hook is; on the client a failing hook influences neither other hooks nor the message, and the server never waits for its hooks.",
     ['inputs', 'fault_sequences'], 'every set of hooks, sync or async, failing or not',
     'Tests register one or two succeeding hooks.',
     ['openleadr/hooks.py', 'openleadr/client.py'], [('hooks.call', 'openleadr/hooks.py'), ('_execute_hooks', 'openleadr/client.py')])

prop('C29', 'Handlers are called for exactly the message they were registered for',
     "A handler registered under a name is the one called for that kind of message, on the client and the server; unknown names never become handlers, and registering one handler leaves the others as they were. Where the application has no handler nothing is granted: registrations are refused, no reports are requested, and new events are declined.",
     ['inputs', 'configurations'], 'every handler name and message kind',
     'Tests register the handlers they use.',
     ['openleadr/server.py', 'openleadr/client.py'], [('OpenADRServer.add_handler', 'openleadr/server.py'), ('OpenADRClient.add_handler', 'openleadr/client.py'), ('_poll', 'openleadr/client.py')])

exec(open(os.path.join(V, 'tools', 'more_props.py')).read()) if os.path.exists(os.path.join(V, 'tools', 'more_props.py')) else None

P.sort(key=lambda p: p['id'])
with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
    for p in P:
        assert len(p['title']) <= 80, p['title']
        a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
        if p['state']: a['state'] = [{'name': n, 'meaning': m, 'where': w} for n, m, w in p['state']]
        f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                            'quantifier': {'over': p['over'], 'text': p['text']}, 'why_tests_cant': p['why'],
                            'anchors': a}) + '\n')

NOTE = ('Contracts on the real functions, discharged by pyvc (symbolic execution of the functions\' ASTs, read from /repo '
        'on every run, z3/cvc5 behind it) for all inputs; collections whose length the verifier cannot leave open are '
        'proved for every content up to a stated length, labelled bounded. Refutations are replayed on the real code. '
        'Trusted: pyvc, the solvers, and the library contracts listed in the evidence. ')
checks, na = [], []
for p in P:
    if p['na']:
        na.append({'property': p['id'], 'reason': p['na']})
        continue
    checks.append({'property': p['id'], 'quick_cmd': f"python3-vt check.py {p['id']} --tier quick",
                   'thorough_cmd': f"python3-vt check.py {p['id']} --tier thorough",
                   'technique': 'contract-based deductive verification (contracts on the real Python code, VCs by symbolic execution, SMT)',
                   'level': p['level'], 'level_note': NOTE + p['note']})
json.dump({'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': na,
           'notes': 'No hooks in /repo. Fix commits in /repo are listed in /verif/known-findings.txt.'},
          open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(P), len(checks))
