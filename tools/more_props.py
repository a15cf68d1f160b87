prop('C17', 'Durations, timestamps and booleans survive the wire',
     "Every duration of whole seconds, positive or negative, and every timestamp, to the microsecond, that is formatted for a message is read back as the same value; booleans too. Every RFC 5545 duration and every timestamp with any number of fraction digits is read as the value it denotes. Text that is no duration or boolean is refused, never interpreted in part.",
     ['inputs'], 'every duration, timestamp, boolean and text form of them',
     'Tests check a list of literals; the carry between days, hours, minutes, seconds and signs needs every value.',
     ['openleadr/utils.py'], [('timedeltaformat / parse_duration', 'openleadr/utils.py'), ('datetimeformat / parse_datetime', 'openleadr/utils.py'), ('booleanformat / parse_boolean', 'openleadr/utils.py')])

prop('C20', 'An event the VTN sends is consistent or it is not sent',
     "An event goes out only if all its signals last equally long and its active period has that duration, its SIMPLE payloads are levels 0 to 3, and its two forms of targets agree (a missing one is derived). The current value of a SIMPLE signal is 0 unless the event is active, response_required and the creation time get their defaults, and nothing else of the event is changed.",
     ['inputs'], 'every event: any signals, intervals, payloads, status, targets and optional fields',
     'Tests run preflight on one malformed event each.',
     ['openleadr/preflight.py'], [('_preflight_oadrDistributeEvent', 'openleadr/preflight.py')], level='proof')

prop('C21', 'Report offers carry only measurements the schema has',
     "A measurement in an offered report is accepted exactly when its description, unit and power attributes are those the schema has for its name; unknown names become customUnit and each measurement is put in the namespace of its element. Offered reports are named METADATA_..., and nothing else in them is changed.",
     ['inputs'], 'every measurement name, description, unit and set of attributes, in every report offer',
     'Tests check two or three measurements.',
     ['openleadr/preflight.py', 'openleadr/utils.py', 'openleadr/enums.py', 'openleadr/objects.py'],
     [('_preflight_oadrRegisterReport', 'openleadr/preflight.py'), ('validate_report_measurement_dict', 'openleadr/utils.py'), ('MEASUREMENTS', 'openleadr/enums.py')])

prop('C24', 'One certificate has one fingerprint',
     "The fingerprint of a certificate is the last ten bytes of its SHA-256 hash, as upper case hexadecimal pairs separated by colons, however the certificate is given: PEM text or bytes, DER, or the TLS connection of a request. Without a certificate there is no fingerprint.",
     ['inputs'], 'every certificate and form of it',
     'Tests compare one literal certificate; the digits and separators depend on every byte of the hash.',
     ['openleadr/utils.py'], [('certificate_fingerprint', 'openleadr/utils.py'), ('certificate_fingerprint_from_der', 'openleadr/utils.py'), ('get_cert_fingerprint_from_request', 'openleadr/utils.py')])

prop('C27', 'The VEN starts, works and stops as the VTN and the schedule require',
     "On start the VEN registers, offers its reports, fetches its events and polls once, in that order, then polls at the frequency the VTN asked for (10 s by default, at most a day); without a registration it stops. Periodic work runs at least as often as asked and at exact multiples where the clock has them, with at most the jitter allowed. Stopping ends the scheduler, the report queue and the connection.",
     ['inputs', 'histories', 'configurations'], 'every poll frequency, interval, and combination of answers of the VTN',
     'Tests start the client against a cooperative VTN with one frequency.',
     ['openleadr/client.py', 'openleadr/utils.py'], [('OpenADRClient.run / stop', 'openleadr/client.py'), ('cron_config', 'openleadr/utils.py')])

prop('C30', 'A datapoint added to a report is offered exactly as described',
     "Adding a report datapoint on the VEN offers exactly the resource, quantity, unit, scale, power attributes, rates, duration and names given, with the documented defaults, in the report it belongs to and sharing nothing with other reports, and registers its callback under the ids it returns. What cannot be reported is refused and leaves nothing behind.",
     ['inputs', 'histories'], 'every combination of arguments, in any sequence of two calls',
     'Tests use a few argument combinations; shared measurement objects show only across calls.',
     ['openleadr/client.py', 'openleadr/enums.py', 'openleadr/objects.py'], [('OpenADRClient.add_report', 'openleadr/client.py'), ('MEASUREMENTS', 'openleadr/enums.py')],
     [('report_callbacks', 'callback per (report_specifier_id, r_id)', 'openleadr/client.py')])

prop('C18', 'A received message says what its sender wrote, whoever wrote it',
     "Whole and decimal numbers in a received message become numbers, true and false booleans, durations and timestamps values, and every other text stays exactly as it is (such as '1.2.3', '1-2' or '12a'). Whatever can occur several times (events, signals, intervals, targets, reports, values, opt responses, pending reports) is a list in the order of the message, also when it occurs once. Namespace prefixes, white space between elements, and the integer or float wrapping of payloads make no difference, and a test event is a test unless it says false.",
     ['inputs'], 'every text, number and count in messages written by any implementation',
     'Tests parse messages the library wrote itself, with one literal each.',
     ['openleadr/messaging.py', 'openleadr/utils.py'], [('parse_message', 'openleadr/messaging.py'), ('normalize_dict', 'openleadr/utils.py')])

prop('C25', 'Every message arrives as it was sent',
     "A message created from a payload conforms to the OpenADR 2.0b schema, and reading it gives back the type and the payload: every id, text (with any special characters), number, time, duration, flag, target, measurement, signal, interval, report, datapoint and opt response, in order, with none lost, added or mixed up. This holds for every type of message and every combination of its optional parts.",
     ['inputs'], 'every message type, optional part and value',
     'Tests create one example of each message and look at a few of its fields.',
     ['openleadr/messaging.py', 'openleadr/utils.py', 'openleadr/templates', 'openleadr/preflight.py', 'openleadr/objects.py'],
     [('create_message', 'openleadr/messaging.py'), ('parse_message', 'openleadr/messaging.py'), ('normalize_dict', 'openleadr/utils.py'), ('templates', 'openleadr/templates')])


prop('C31', 'Outgoing messages are signed with the own key, freshly, over what is sent',
     "A VTN or VEN that has a certificate and a key signs every message it makes (unless signing was disabled), with exactly that key, certificate and passphrase, over the content that is sent, and with replay protection made for this message (the current time and a new nonce) that the other side accepts once. Without a key or certificate messages carry no signature.",
     ['inputs', 'configurations', 'histories'], 'every message, and every combination of certificate, key, passphrase and disabled signing',
     'Tests sign one message with one key pair and verify it themselves.',
     ['openleadr/messaging.py', 'openleadr/client.py', 'openleadr/server.py'],
     [('create_message', 'openleadr/messaging.py'), ('_create_replay_protect', 'openleadr/messaging.py')])

prop('C32', 'A server and a client are set up exactly as configured',
     "The server answers each of its services at that service's address below the path prefix, and every service knows the VTN id, the lookups, the poll frequency and whether to verify signatures; with an HTTP certificate, key and CA it accepts only clients with a certificate of that CA. A client with a certificate presents it and talks only to a server with a certificate of the CA for the right host (unless host name checking was switched off), over a single session.",
     ['configurations'], 'every combination of the configuration arguments',
     'Tests use two configurations, with and without certificates.',
     ['openleadr/server.py', 'openleadr/client.py', 'openleadr/service/vtn_service.py'],
     [('OpenADRServer.__init__', 'openleadr/server.py'), ('OpenADRClient.__init__ / _ensure_client_session', 'openleadr/client.py')])

prop('C33', 'Every message a VEN sends is complete, its own, and says what was asked',
     "Every request of a VEN goes to the service of its kind with all that the protocol requires of it, the VEN's current id and a request id of its own (or the one its caller gave), and says exactly what the caller asked: capabilities, transport, registration, reply limit, opt or reports, with the documented defaults. Every answer it sends names the request it answers and says whether that went well. What the VTN answers is handed on as it is.",
     ['inputs', 'histories'], 'every request and answer of a VEN, with any arguments, one after the other',
     'Tests look at the type of the answer to one request of each kind.',
     ['openleadr/client.py'],
     [('OpenADRClient.create_party_registration', 'openleadr/client.py'), ('OpenADRClient.request_event', 'openleadr/client.py'),
      ('OpenADRClient.register_reports', 'openleadr/client.py'), ('OpenADRClient.create_opt / cancel_opt', 'openleadr/client.py'),
      ('OpenADRClient.send_response', 'openleadr/client.py')])
