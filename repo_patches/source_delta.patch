From 4f617cf79117b0da20224d1844bd615e2839054e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 01/67] fix: order_events put the start date before the
 priority for active events

---
 openleadr/utils.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 2cf4c31..61cd2d3 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -825,12 +825,12 @@ def order_events(events, limit=None, offset=None):
     other_events = [event for event in events
                     if getmember(event, 'event_descriptor.event_status') != 'active']
 
-    # Sort the active events by priority
-    active_events.sort(key=lambda e: event_priority(e))
-
     # Sort the active events by start date
     active_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
+    # Sort the active events by priority (stable, so the start date breaks ties)
+    active_events.sort(key=lambda e: event_priority(e))
+
     # Sort the non-active events by their start date
     other_events.sort(key=lambda e: getmember(e, 'active_period.dtstart'))
 
-- 
2.43.0


From 68774535e8a85dc064b91f76e70948ac152d317c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 02/67] fix: a single completed event was dropped from the
 queue without ever being sent

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 61cd2d3..c71e65c 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -817,7 +817,7 @@ def order_events(events, limit=None, offset=None):
 
     # Short circuit if we only have one event:
     if len(events) == 1:
-        return events
+        return list(events)
 
     # Get all the active events first
     active_events = [event for event in events
-- 
2.43.0


From af35f94e238f932bcc2d152e9e34adcef3661593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 03/67] fix: an event update during the delivery of earlier
 events was lost

---
 openleadr/service/poll_service.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 20b7341..1f541bd 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -120,8 +120,13 @@ class PollService(VTNService):
             result = self.on_poll(ven_id=payload['ven_id'])
         elif self.events_updated.get(payload['ven_id']):
             # Send a oadrDistributeEvent whenever the events were updated
-            result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            # Clear the flag first: an event can be added or changed while we are awaiting.
             self.events_updated[payload['ven_id']] = False
+            try:
+                result = await self.event_service.request_event({'ven_id': payload['ven_id']})
+            except Exception:
+                self.events_updated[payload['ven_id']] = True
+                raise
         else:
             return 'oadrResponse', {}
 
-- 
2.43.0


From 7d86d49d08ca91ba67646faefbc7d6e3f7ac3389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 04/67] fix: returning a list of events from on_poll caused an
 internal server error

---
 openleadr/service/poll_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/poll_service.py b/openleadr/service/poll_service.py
index 1f541bd..a52172c 100644
--- a/openleadr/service/poll_service.py
+++ b/openleadr/service/poll_service.py
@@ -137,7 +137,7 @@ class PollService(VTNService):
         if isinstance(result, tuple):
             return result
         if isinstance(result, list):
-            return 'oadrDistributeEvent', result
+            return 'oadrDistributeEvent', {'events': result}
         if isinstance(result, dict) and 'event_descriptor' in result:
             return 'oadrDistributeEvent', {'events': [result]}
         if isinstance(result, objects.Event):
-- 
2.43.0


From e78362d660bb52c7b6a48a407840c109337b5840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 05/67] fix: a response to a completed or unknown event caused
 an internal server error

---
 openleadr/service/event_service.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/event_service.py b/openleadr/service/event_service.py
index 23eae14..371d54b 100644
--- a/openleadr/service/event_service.py
+++ b/openleadr/service/event_service.py
@@ -94,7 +94,7 @@ class EventService(VTNService):
                 event_id = event_response['event_id']
                 modification_number = event_response['modification_number']
                 opt_type = event_response['opt_type']
-                event = utils.find_by(self.events[ven_id],
+                event = utils.find_by(self.events.get(ven_id, []),
                                       'event_descriptor.event_id', event_id,
                                       'event_descriptor.modification_number', modification_number)
                 if not event:
@@ -104,7 +104,7 @@ class EventService(VTNService):
                                        f"""{modification_number} that does not exist.""")
                         raise errors.InvalidIdError
                 # Remove the event from the events list if the cancellation is confirmed.
-                if utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
+                if event and utils.getmember(event, 'event_descriptor.event_status') == enums.EVENT_STATUS.CANCELLED:
                     utils.pop_by(self.events[ven_id], 'event_descriptor.event_id', event_id)
                 if event_response['event_id'] in self.event_callbacks:
                     event, callback = self.event_callbacks.pop(event_id)
-- 
2.43.0


From 6155fb967373137ded657c564976d7d24aaeac09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 06/67] fix: add_raw_event discarded the active_period of the
 event

---
 openleadr/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/server.py b/openleadr/server.py
index 12de1cb..352c015 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -297,7 +297,7 @@ class OpenADRServer:
         # Add some default properties to the event if they are not already set
         if not utils.getmember(event, 'event_descriptor.event_status', None):
             utils.setmember(event, 'event_descriptor.event_status', 'far')
-        if not utils.getmember(event, 'event_descriptor.active_period', None):
+        if not utils.getmember(event, 'active_period', None):
             active_period = utils.get_active_period_from_intervals(
                 [utils.get_active_period_from_intervals(utils.getmember(signal, 'intervals'), False) for signal in utils.getmember(event, 'event_signals')]
             )
-- 
2.43.0


From 4d87f5d9858a85767ad0d806d0bf32b7dedb992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 07/67] fix: a wrong Content-Type was answered with a 500
 instead of a 400

---
 openleadr/service/vtn_service.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a96689f..a6ed507 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -50,9 +50,9 @@ class VTNService:
             # Check the Content-Type header
             content_type = request.headers.get('content-type', '')
             if not content_type.lower().startswith("application/xml"):
-                raise errors.HTTPError(response_code=HTTPStatus.BAD_REQUEST,
-                                       response_description="The Content-Type header must be application/xml; "
-                                                            f"you provided {request.headers.get('content-type', '')}")
+                raise errors.HTTPError(status=HTTPStatus.BAD_REQUEST,
+                                       description="The Content-Type header must be application/xml; "
+                                                   f"you provided {request.headers.get('content-type', '')}")
             content = await request.read()
             hooks.call('before_parse', content)
 
-- 
2.43.0


From 715a00720935c52af525623f7080cf1962d29edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 08/67] fix: negative durations were formatted as a different
 duration

---
 openleadr/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index c71e65c..75caa56 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -331,10 +331,13 @@ def timedeltaformat(value):
     """
     if not isinstance(value, timedelta):
         return value
+    formatted = "P"
+    if value < timedelta(0):
+        formatted = "-P"
+        value = -value
     days = value.days
     hours, seconds = divmod(value.seconds, 3600)
     minutes, seconds = divmod(seconds, 60)
-    formatted = "P"
     if days:
         formatted += f"{days}D"
     if hours or minutes or seconds:
-- 
2.43.0


From a7e87e9772ebb2bb6c9869b8799a9c63680e12d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 09/67] fix: parse_duration silently ignored the part of a
 duration it could not parse

---
 openleadr/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 75caa56..8d0136c 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -290,8 +290,8 @@ def parse_duration(value):
     """
     if isinstance(value, timedelta):
         return value
-    regex = r'(\+|\-)?P(?:(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?)|(?:(\d+)W)'
-    matches = re.match(regex, value)
+    regex = r'(\+|\-)?(?:P(?:(\d+)Y)?(?:(\d+)M)?(?:(\d+)D)?T?(?:(\d+)H)?(?:(\d+)M)?(?:(\d+)S)?|P?(\d+)W)'
+    matches = re.fullmatch(regex, value)
     if not matches:
         raise ValueError(f"The duration '{value}' did not match the requested format")
     years, months, days, hours, minutes, seconds, weeks = (int(g) if g else 0 for g in matches.groups()[1:])
-- 
2.43.0


From 873175fbc47febd60cbf5c1af546073883eaa55e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 10/67] fix: values like '1.2.3' could not be parsed

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 8d0136c..e26de76 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -100,7 +100,7 @@ def normalize_dict(ordered_dict):
         elif isinstance(value, str):
             if re.match(r'^-?\d+$', value):
                 d[key] = int(value)
-            elif re.match(r'^-?[\d.]+$', value):
+            elif re.match(r'^-?(\d+\.\d*|\.\d+)$', value):
                 d[key] = float(value)
             else:
                 d[key] = value
-- 
2.43.0


From 955ddf6ce3a891885c961c648a4f0893f8df8886 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 11/67] fix: integer report payloads could not be parsed

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index e26de76..e10ba90 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -238,7 +238,7 @@ def normalize_dict(ordered_dict):
                 v = d[key].pop('payload_float')
                 d[key]['value'] = float(v['value'])
             elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_float')
+                v = d[key].pop('payload_int')
                 d[key]['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
-- 
2.43.0


From 027df11e0906a9aaeb43c8abd64c7cac19c986e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 12/67] fix: find_by matched on the wrong level when part of a
 nested key was missing

---
 openleadr/utils.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index e10ba90..c15b8c0 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -457,6 +457,7 @@ def find_by(dict_or_list, key, value, *args):
             keys = key.split(".")
             for key in keys[:-1]:
                 if not hasmember(_item, key):
+                    _item = {}
                     break
                 _item = getmember(_item, key)
             key = keys[-1]
-- 
2.43.0


From 8ea95e9bc26110f64b998b7290187b8f0c282577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 13/67] fix: the current_value of active SIMPLE events was
 reset to 0

---
 openleadr/preflight.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/preflight.py b/openleadr/preflight.py
index d3eca74..8068748 100644
--- a/openleadr/preflight.py
+++ b/openleadr/preflight.py
@@ -102,7 +102,7 @@ def _preflight_oadrDistributeEvent(message_payload):
         for event_signal in event['event_signals']:
             if 'current_value' in event_signal and event_signal['current_value'] != 0:
                 if event_signal['signal_name'] == "SIMPLE" \
-                        and event['event_descriptor']['event_status'] != "ACTIVE":
+                        and event['event_descriptor']['event_status'] != enums.EVENT_STATUS.ACTIVE:
                     logger.warning("The current_value for a SIMPLE event "
                                    "that is not yet active must be 0. "
                                    "This will be corrected.")
-- 
2.43.0


From 52a9f82eb4aaf0292fa3638dca4267aea907bdad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 14/67] fix: currencyPerKW measurements were not recognized

---
 openleadr/enums.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/enums.py b/openleadr/enums.py
index 2ed9f79..e003cfa 100644
--- a/openleadr/enums.py
+++ b/openleadr/enums.py
@@ -255,7 +255,7 @@ _MEASUREMENT_DESCRIPTIONS = {'currency': 'currency',
                              'voltage': 'Voltage'}
 
 _MEASUREMENT_NAMESPACES = {'currency': 'oadr',
-                           'currencyPerWK': 'oadr',
+                           'currencyPerKW': 'oadr',
                            'currencyPerKWh': 'oadr',
                            'currencyPerThm': 'oadr',
                            'current': 'oadr',
-- 
2.43.0


From 6a4a394a2cca04070cf22f7fc0fc093440c54c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 15/67] fix: one invalid entry from on_register_report failed
 the whole registration

---
 openleadr/service/report_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 17e1084..a827088 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -179,6 +179,8 @@ class ReportService(VTNService):
             report_request_id = utils.generate_id()
             specifier_payloads = []
             for rrq in report_request:
+                if rrq is None:
+                    continue
                 if len(rrq) == 3:
                     r_id, callback, sampling_interval = rrq
                     report_interval = sampling_interval
-- 
2.43.0


From 00b630f8b758d946f665c82c2dbe646dd970dd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 16/67] fix: mixed sampling intervals used the last one instead
 of the smallest one

---
 openleadr/service/report_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index a827088..509bdc8 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -194,6 +194,9 @@ class ReportService(VTNService):
                 # Append the callback to our list of known callbacks
                 self.report_callbacks[(report_request_id, r_id)] = callback
 
+            # Use the same sampling interval for everything in this report
+            sampling_interval = min(rrq[2] for rrq in report_request if rrq is not None)
+
             # Add the ReportSpecifier to the ReportRequest
             report_specifier = objects.ReportSpecifier(report_specifier_id=report_specifier_id,
                                                        granularity=sampling_interval,
-- 
2.43.0


From 7c234af51946c3d3cf631b0e133dfc8d487248a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:20 +0000
Subject: [PATCH 17/67] fix: reports without a scale (pulseCount) could not be
 registered

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 509bdc8..df79458 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -115,7 +115,7 @@ class ReportService(VTNService):
                                                        resource_id=rd.get('report_data_source', {}).get('resource_id'),
                                                        measurement=rd['measurement']['description'],
                                                        unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement']['scale'],
+                                                       scale=rd['measurement'].get('scale'),
                                                        min_sampling_interval=rd['sampling_rate']['min_period'],
                                                        max_sampling_interval=rd['sampling_rate']['max_period'])
                                for rd in report['report_descriptions']]
-- 
2.43.0


From bdfa29d64c35b1a615f1f483f80c1fab4fffcd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 18/67] fix: report requests in one message shared their r_ids

---
 openleadr/client.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 78380a4..228da2d 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -723,10 +723,10 @@ class OpenADRClient:
         """
         service = 'EiReport'
         response_code = 200
-        single = False
-        requested_r_ids = []
 
         for report_request in response_payload['report_requests']:
+            single = False
+            requested_r_ids = []
             r_id = report_request['report_specifier']['specifier_payloads'][0]['r_id']
             if 'INVALID' in report_request['report_specifier']['report_specifier_id'] or (isinstance(r_id, str) and 'INVALID' in r_id):
                 logger.error("The VTN requested an invalid report. Will respond with an error.")
-- 
2.43.0


From 7a618760e30b622e3fd9d6d94b390a6818c0fbd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 19/67] fix: a scheduled single report was compiled for the
 last report request in the message

---
 openleadr/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 228da2d..cca4c53 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -818,8 +818,7 @@ class OpenADRClient:
                                                     'granularity': granularity,
                                                     'job': None})
                     
-                        async def report_callback():
-                            await self.update_report(report_request_id)
+                        report_callback = partial(self.update_report, report_request_id=report_request_id)
 
                         if 'report_interval' in report_request['report_specifier']:
                             self.scheduler.add_job(report_callback, 'date', run_date=report_request['report_specifier']['report_interval']['dtstart'])
-- 
2.43.0


From 70c75d3ad99cc31d2b748bcc2aea9a262fb30c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 20/67] fix: a report that completes at its first or with a
 larger sampling was never sent

---
 openleadr/client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index cca4c53..f915526 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -918,9 +918,10 @@ class OpenADRClient:
             report_interval = report_back_duration.total_seconds()
             sampling_interval = granularity.total_seconds()
             expected_len = len(report_request['r_ids']) * int(report_interval / sampling_interval)
-            if len(outgoing_report.intervals) == expected_len:
+            if len(outgoing_report.intervals) >= expected_len:
                 logger.info("The report is now complete with all the values. Will queue for sending.")
-                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
+                self.incomplete_reports.pop(report_request_id, None)
+                await self.pending_reports.put(outgoing_report)
             else:
                 logger.debug("The report is not yet complete, will hold until it is.")
                 self.incomplete_reports[report_request_id] = outgoing_report
-- 
2.43.0


From 6ea5f8842ee17be38a938e1e347ea6fdb5626a1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 21/67] fix: an empty response from the VTN caused a TypeError

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index f915526..0253a2f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1105,7 +1105,7 @@ class OpenADRClient:
             logger.error(f"Request error {err.__class__.__name__}:{err}")
             return None, {}
         if len(content) == 0:
-            return None
+            return None, {}
         try:
             await self._execute_hooks('before_schema_validation', utils.ensure_str(content))
             tree = validate_xml_schema(content)
-- 
2.43.0


From f765c7e0977da8c2b902de7b34454b13df0c407d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 22/67] fix: a cancelReport in the response to an updateReport
 was ignored

---
 openleadr/client.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0253a2f..5c74638 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -985,8 +985,7 @@ class OpenADRClient:
                                                request_id=utils.generate_id(),
                                                reports=[report])
                 try:
-                    # response_type, response_payload = await self._perform_request(service, message)
-                    response_payload = await self._perform_request(service, message)
+                    response_type, response_payload = await self._perform_request(service, message)
                 except Exception as err:
                     logger.error(f"Unable to send the report to the VTN. Error: {err}")
                 else:
-- 
2.43.0


From 03a20d24aea8386265ff7cae0220b984c060fa69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 23/67] fix: add_report failed on every measurement that was
 given as a dict

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 5c74638..fb5c964 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -304,7 +304,9 @@ class OpenADRClient:
             item_base = measurement
         elif isinstance(measurement, dict):
             utils.validate_report_measurement_dict(measurement)
-            power_attributes = object.PowerAttributes(**measurement.get('power_attributes')) or None
+            power_attributes = measurement.get('power_attributes')
+            if isinstance(power_attributes, dict):
+                power_attributes = objects.PowerAttributes(**power_attributes)
             item_base = objects.Measurement(name=measurement['name'],
                                             description=measurement['description'],
                                             unit=measurement['unit'],
-- 
2.43.0


From 41e701be8dc5a8b386b06b6fde59949fb4eef296 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 24/67] fix: add_report returned None as report_specifier_id
 when adding to an existing report

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index fb5c964..4dfd8e0 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -365,7 +365,7 @@ class OpenADRClient:
                                                        market_context=market_context)
         self.report_callbacks[(report.report_specifier_id, r_id)] = callback
         report.report_descriptions.append(report_description)
-        return report_specifier_id, r_id
+        return report.report_specifier_id, r_id
 
     def add_hook(self, hook_name, handler):
         """
-- 
2.43.0


From 7360e718c6c16ed5ad6634ca9ee52171fc277667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 25/67] fix: setting the scale of a report changed the scale of
 other reports, and pulse counts were refused

---
 openleadr/client.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 4dfd8e0..f232580 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -19,7 +19,7 @@ import inspect
 import logging
 import ssl
 from datetime import datetime, timedelta, timezone
-from dataclasses import asdict
+from dataclasses import asdict, replace
 from functools import partial
 from http import HTTPStatus
 
@@ -320,12 +320,10 @@ class OpenADRClient:
                                             unit=unit,
                                             scale=scale)
 
-        if report_name != 'TELEMETRY_STATUS' and scale is not None:
-            if item_base.scale is not None:
-                if scale in enums.SI_SCALE_CODE.values:
-                    item_base.scale = scale
-            else:
-                raise ValueError("The 'scale' argument must be one of '{'. ',join(enums.SI_SCALE_CODE.values)}")
+        # Pulse counts have a pulse factor instead of a scale.
+        if item_base is not None and item_base.pulse_factor is None:
+            # The original may be shared with other reports, so don't change it in place.
+            item_base = replace(item_base, scale=scale)
 
         # Check if unit is compatible
         if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
-- 
2.43.0


From 7c666d3e5a77d1f3b882d04e06992f1249c0beb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 26/67] fix: receiving a cancelled or completed event again
 opted out of all events in the message

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index f232580..602a8a8 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1156,7 +1156,8 @@ class OpenADRClient:
                 logger.info("The VEN received an event with event_id: %s, status: %s, modification_number: %s", event_id, event_status, modification_number) # change to debug
                 received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
                 if received_event:
-                    if received_event['event_descriptor']['modification_number'] == modification_number:
+                    if received_event['event_descriptor']['modification_number'] == modification_number \
+                            and event_id in self.responded_events:
                         # Re-submit the same opt type as we already had previously
                         result = self.responded_events[event_id]
                     else:
-- 
2.43.0


From 43555025afcb98c24b4e4d3869dfcca97f16e2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:04 +0000
Subject: [PATCH 27/67] fix: an error in the handler of one event opted out of
 all events in the message

---
 openleadr/client.py | 35 ++++++++++++++++++++---------------
 1 file changed, 20 insertions(+), 15 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 602a8a8..1375c4c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1155,23 +1155,28 @@ class OpenADRClient:
                 modification_number = event['event_descriptor']['modification_number']
                 logger.info("The VEN received an event with event_id: %s, status: %s, modification_number: %s", event_id, event_status, modification_number) # change to debug
                 received_event = utils.find_by(self.received_events, 'event_descriptor.event_id', event_id)
-                if received_event:
-                    if received_event['event_descriptor']['modification_number'] == modification_number \
-                            and event_id in self.responded_events:
-                        # Re-submit the same opt type as we already had previously
-                        result = self.responded_events[event_id]
+                try:
+                    if received_event:
+                        if received_event['event_descriptor']['modification_number'] == modification_number \
+                                and event_id in self.responded_events:
+                            # Re-submit the same opt type as we already had previously
+                            result = self.responded_events[event_id]
+                        else:
+                            # Replace the event with the fresh copy
+                            utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                            self.received_events.append(event)
+                            # Wait for the result of the on_update_event handler
+                            result = await utils.await_if_required(self.on_update_event(event))
                     else:
-                        # Replace the event with the fresh copy
-                        utils.pop_by(self.received_events, 'event_descriptor.event_id', event_id)
+                        # Wait for the result of the on_event
                         self.received_events.append(event)
-                        # Wait for the result of the on_update_event handler
-                        result = await utils.await_if_required(self.on_update_event(event))
-                else:
-                    # Wait for the result of the on_event
-                    self.received_events.append(event)
-                    result = self.on_event(event)
-                if asyncio.iscoroutine(result):
-                    result = await result
+                        result = self.on_event(event)
+                    if asyncio.iscoroutine(result):
+                        result = await result
+                except Exception as err:
+                    logger.error("Your on_event handler encountered an error. Will Opt Out of the event. "
+                                 f"The error was {err.__class__.__name__}: {str(err)}")
+                    result = 'optOut'
                 results.append(result)
                 if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
                         and event_id in self.responded_events:
-- 
2.43.0


From 5f6a75b22d8c3853d513fdfc55f018ec2c7313c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 28/67] fix: a refused oadrRequestEvent was answered with an
 internal server error

---
 openleadr/service/vtn_service.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index a6ed507..7438de0 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -207,4 +207,6 @@ class VTNService:
             response_type = 'oadrResponse'
         response_payload = {'response': {'response_code': error_code,
                                          'response_description': error_description}}
+        if response_type == 'oadrDistributeEvent':
+            response_payload.update({'vtn_id': self.vtn_id, 'events': []})
         return response_type, response_payload
-- 
2.43.0


From 499011a99f2016b7635b9e9b06ec594ea3ed85aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:00 +0000
Subject: [PATCH 29/67] fix: values with XML special characters resulted in
 malformed messages

---
 openleadr/messaging.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index 5663fe1..a812ec9 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -216,7 +216,7 @@ REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
 # Settings for jinja2
-TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'))
+TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
 TEMPLATES.filters['timedeltaformat'] = utils.timedeltaformat
 TEMPLATES.filters['booleanformat'] = utils.booleanformat
-- 
2.43.0


From 99f2552e28c329bd41597b38d56f25941ddd9aee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:34 +0000
Subject: [PATCH 30/67] fix: getmember ignored the default value when an
 intermediate member was missing

---
 openleadr/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index c15b8c0..d9b5300 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -672,6 +672,8 @@ def getmember(obj, member, missing='_RAISE_'):
 
     for m in member.split("."):
         obj = getmember_inner(obj, m, missing=missing)
+        if obj is missing:
+            break
     return obj
 
 
-- 
2.43.0


From fb9309c0b15f9b4c036269a28ef1284d66b59ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:27 +0000
Subject: [PATCH 31/67] fix: add_report ignored the supplied unit, also when it
 is acceptable for the measurement

---
 openleadr/client.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 1375c4c..44e458b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -326,11 +326,14 @@ class OpenADRClient:
             item_base = replace(item_base, scale=scale)
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit and unit not in item_base.acceptable_units:
-            logger.warning(f"The supplied unit {unit} for measurement {measurement} "
-                           f"will be ignored, {item_base.unit} will be used instead. "
-                           f"Allowed units for this measurement are: "
-                           f"{', '.join(item_base.acceptable_units)}")
+        if unit is not None and unit != item_base.unit:
+            if unit in item_base.acceptable_units:
+                item_base = replace(item_base, unit=unit)
+            else:
+                logger.warning(f"The supplied unit {unit} for measurement {measurement} "
+                               f"will be ignored, {item_base.unit} will be used instead. "
+                               f"Allowed units for this measurement are: "
+                               f"{', '.join(item_base.acceptable_units)}")
 
         # Get or create the relevant Report
         if report_specifier_id:
-- 
2.43.0


From c0be2e77dbd32c2e137e4ea39f8878541bef7c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:27 +0000
Subject: [PATCH 32/67] fix: add_report failed when a unit was supplied with a
 TELEMETRY_STATUS report

---
 openleadr/client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 44e458b..aa4b423 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -326,7 +326,7 @@ class OpenADRClient:
             item_base = replace(item_base, scale=scale)
 
         # Check if unit is compatible
-        if unit is not None and unit != item_base.unit:
+        if item_base is not None and unit is not None and unit != item_base.unit:
             if unit in item_base.acceptable_units:
                 item_base = replace(item_base, unit=unit)
             else:
-- 
2.43.0


From 0d47e7490e67a87ee542d7b070c1e789cca955cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:27 +0000
Subject: [PATCH 33/67] fix: add_report ignored the power_ac, power_hertz and
 power_voltage arguments

---
 openleadr/client.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index aa4b423..1917a7c 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -314,6 +314,10 @@ class OpenADRClient:
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = enums.MEASUREMENTS[measurement.upper()]
+            if item_base.power_attributes is not None:
+                item_base = replace(item_base, power_attributes=objects.PowerAttributes(ac=power_ac,
+                                                                                        hertz=power_hertz,
+                                                                                        voltage=power_voltage))
         else:
             item_base = objects.Measurement(name='customUnit',
                                             description=measurement,
-- 
2.43.0


From 1a910a6228f89787615b1a3f5228b2952a13170f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:03 +0000
Subject: [PATCH 34/67] fix: the client crashed when the VTN knew its
 registration but did not confirm it again

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 1917a7c..35f0d58 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -141,6 +141,7 @@ class OpenADRClient:
         response_type, response_payload = await self.query_registration()
         if 'registration_id' in response_payload:
             self.registration_id = response_payload['registration_id']
+            self.poll_frequency = response_payload.get('requested_oadr_poll_freq', timedelta(seconds=10))
         if response_payload and 'response' in response_payload  and 'request_id' in response_payload['response']:
             request_id = response_payload['response']['request_id']
 
-- 
2.43.0


From d93347306ec1e719fc4b348767bb0c256591f239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 35/67] fix: line breaks in texts were removed from the
 messages

---
 openleadr/utils.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index d9b5300..1a4e958 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -41,13 +41,10 @@ def generate_id(*args, **kwargs):
 
 def flatten_xml(message):
     """
-    Flatten the entire XML structure.
+    Flatten the entire XML structure: remove the whitespace between tags, and
+    leave the text inside the elements as it is.
     """
-    lines = [line.strip() for line in message.split("\n") if line.strip() != ""]
-    for line in lines:
-        line = re.sub(r'\n', '', line)
-        line = re.sub(r'\s\s+', ' ', line)
-    return "".join(lines)
+    return re.sub(r'>\s+<', '><', message.strip())
 
 
 def normalize_dict(ordered_dict):
-- 
2.43.0


From 07fd080391352c4476b32b5cced13cc890beef2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:09:16 +0000
Subject: [PATCH 36/67] fix: measurements were not converted if an earlier
 datapoint or signal had none

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 1a4e958..405511e 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -186,7 +186,7 @@ def normalize_dict(ordered_dict):
                         name, item = measurement, description.pop(measurement)
                         break
                 else:
-                    break
+                    continue
                 item['description'] = item.pop('item_description', None)
                 item['unit'] = item.pop('item_units', None)
                 if 'si_scale_code' in item:
-- 
2.43.0


From 61c852e7133833337fc84b222c4a4fb41c7740d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:13 +0000
Subject: [PATCH 37/67] fix: opts with more than one target resulted in
 malformed messages

---
 openleadr/templates/oadrCreateOpt.xml | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openleadr/templates/oadrCreateOpt.xml b/openleadr/templates/oadrCreateOpt.xml
index f62e592..cf6ac9b 100644
--- a/openleadr/templates/oadrCreateOpt.xml
+++ b/openleadr/templates/oadrCreateOpt.xml
@@ -32,9 +32,9 @@
     </ei:qualifiedEventID>
     {% endif %}
     {% if targets is defined and targets is not none and targets|length > 0 %}
-    {% for target in targets %}
-    {% include 'parts/eiTarget.xml' %}
-    {% endfor %}
+    {% with event = {'targets': targets} %}
+    {% include 'parts/eiEventTarget.xml' %}
+    {% endwith %}
     {% else %}
     <ei:eiTarget/>
     {% endif %}
-- 
2.43.0


From 1d50fc68769c0fd9511ad5fe9f82d0df179a178c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:56 +0000
Subject: [PATCH 38/67] fix: items of lists were converted twice, so that
 events without targets lacked targets_by_type

---
 openleadr/utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index 405511e..ea7d426 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -84,8 +84,7 @@ def normalize_dict(ordered_dict):
             d[key] = []
             for item in value:
                 if isinstance(item, (OrderedDict, dict)):
-                    dict_item = normalize_dict(item)
-                    d[key].append(normalize_dict(dict_item))
+                    d[key].append(normalize_dict(item))
                 else:
                     d[key].append(item)
         elif key in ("duration", "startafter", "max_period", "min_period"):
-- 
2.43.0


From 4278a2f5cfe7281300530fa488b5698d31d338ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:30 +0000
Subject: [PATCH 39/67] fix: events without a priority resulted in messages
 with an empty priority

---
 openleadr/templates/parts/eiEventDescriptor.xml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/templates/parts/eiEventDescriptor.xml b/openleadr/templates/parts/eiEventDescriptor.xml
index 8b4de05..a58dab8 100644
--- a/openleadr/templates/parts/eiEventDescriptor.xml
+++ b/openleadr/templates/parts/eiEventDescriptor.xml
@@ -7,7 +7,7 @@
     {% if event.event_descriptor.modification_reason is defined and event.event_descriptor.modification_reason is not none %}
     <ei:modificationReason>{{ event.event_descriptor.modification_reason }}</ei:modificationReason>
     {% endif %}
-    {%if event.event_descriptor.priority is not none %}
+    {% if event.event_descriptor.priority is defined and event.event_descriptor.priority is not none %}
     <ei:priority>{{ event.event_descriptor.priority }}</ei:priority>
     {% endif %}
     <ei:eiMarketContext>
-- 
2.43.0


From 8b687100617547efee1e29cd769233d1e0bb22a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:59 +0000
Subject: [PATCH 40/67] fix: the client registered with the transport address
 'None' when it has none

---
 openleadr/templates/oadrCreatePartyRegistration.xml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/openleadr/templates/oadrCreatePartyRegistration.xml b/openleadr/templates/oadrCreatePartyRegistration.xml
index 0815205..e7cbffa 100644
--- a/openleadr/templates/oadrCreatePartyRegistration.xml
+++ b/openleadr/templates/oadrCreatePartyRegistration.xml
@@ -9,7 +9,9 @@
     {% endif %}
     <oadr:oadrProfileName>{{ profile_name }}</oadr:oadrProfileName>
     <oadr:oadrTransportName>{{ transport_name }}</oadr:oadrTransportName>
+    {% if transport_address is defined and transport_address is not none %}
     <oadr:oadrTransportAddress>{{ transport_address }}</oadr:oadrTransportAddress>
+    {% endif %}
     <oadr:oadrReportOnly>{{ report_only|booleanformat }}</oadr:oadrReportOnly>
     <oadr:oadrXmlSignature>{{ xml_signature|booleanformat }}</oadr:oadrXmlSignature>
     <oadr:oadrVenName>{{ ven_name }}</oadr:oadrVenName>
-- 
2.43.0


From cc4507c3c200471e083d3a8983dfabeab1b5858f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:40 +0000
Subject: [PATCH 41/67] fix: every reregistration started one more worker for
 the same report queue

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 35f0d58..0ae781f 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -501,7 +501,8 @@ class OpenADRClient:
             return
 
         await self.register_reports(self.reports)
-        if self.reports:
+        if self.reports and (self.report_queue_task is None or self.report_queue_task.done()):
+            # The worker may still be running from our previous registration.
             self.report_queue_task = self.loop.create_task(self._report_queue_worker())
 
         # Perform initial event sync
-- 
2.43.0


From 2f51acb67da3bb762cdaa1fa1a770df1ddcb0b3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:52 +0000
Subject: [PATCH 42/67] fix: a VEN that created reports which OpenLEADR had not
 requested got an internal server error

---
 openleadr/service/report_service.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index df79458..b6f5efc 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -289,7 +289,7 @@ class ReportService(VTNService):
                 self.created_reports[ven_id].append(pending_report['report_request_id'])
 
         # Check if all requested reports were created
-        for requested_report in self.requested_reports[ven_id]:
+        for requested_report in self.requested_reports.get(ven_id, []):
             if requested_report.report_request_id not in self.created_reports[ven_id]:
                 logger.warning(f"The requested report with id {requested_report.report_request_id} "
                                "was not created by the VEN. Yoy may want to contact the VEN to "
-- 
2.43.0


From 169788d28f700b195f0eca46d98e630e95b2e25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:52 +0000
Subject: [PATCH 43/67] fix: an invalid result from
 on_create_party_registration led to a message that does not conform to the
 schema

---
 openleadr/service/registration_service.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 5b32fea..6af1ed1 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -99,7 +99,10 @@ class RegistrationService(VTNService):
                 logger.error("Your on_create_party_registration handler should return either "
                              "'False' (if the client is rejected) or a (ven_id, registration_id) "
                              "tuple. Will REJECT the client for now.")
-                response_payload = {}
+                transports = [{'transport_name': payload['transport_name']}]
+                response_payload = {'profiles': [{'profile_name': payload['profile_name'],
+                                                  'transports': transports}],
+                                    'requested_oadr_poll_freq': self.poll_freq}
             else:
                 ven_id, registration_id = result
                 transports = [{'transport_name': payload['transport_name']}]
-- 
2.43.0


From eafec23fd401be2294f9d519bfb562f991695cd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:29:52 +0000
Subject: [PATCH 44/67] fix: a VEN that cancelled its registration never got
 the confirmation

---
 openleadr/service/registration_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 6af1ed1..3f26f92 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -137,6 +137,9 @@ class RegistrationService(VTNService):
         result = self.on_cancel_party_registration(payload)
         if iscoroutine(result):
             result = await result
+        if result is None:
+            return 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id'],
+                                                     'ven_id': payload['ven_id']}
         return result
 
     def on_cancel_party_registration(self, ven_id):
-- 
2.43.0


From 2fb61e0dee935969a11edc9cf6cb12986fd4a254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:08 +0000
Subject: [PATCH 45/67] fix: the request to cancel an opt had no request id

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0ae781f..e3a5fc2 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -671,6 +671,7 @@ class OpenADRClient:
             return False
 
         payload = {
+            'request_id': utils.generate_id(),
             'opt_id': opt_id,
             'ven_id': self.ven_id
         }
-- 
2.43.0


From 29338994a7f3c2f4b4a5a61e6facecc96a28bb83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:21 +0000
Subject: [PATCH 46/67] fix: a measurement's own scale was offered as "none"
 unless it was given again

---
 openleadr/client.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index e3a5fc2..75e0d13 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -209,7 +209,7 @@ class OpenADRClient:
                    report_type=enums.REPORT_TYPE.READING,
                    report_duration=None, report_dtstart=None,
                    sampling_rate=None, data_source=None,
-                   scale="none", unit=None, power_ac=True, power_hertz=50, power_voltage=230,
+                   scale=None, unit=None, power_ac=True, power_hertz=50, power_voltage=230,
                    market_context=None, end_device_asset_mrid=None, report_data_source=None):
         """
         Add a new reporting capability to the client.
@@ -240,6 +240,8 @@ class OpenADRClient:
         :param datetime.timedelta report_duration: The time span that can be provided in this report.
         :param datetime.datetime report_dtstart: The earliest available data for this report (defaults to now).
         :param datetime.timedelta sampling_rate: The sampling rate for the measurement.
+        :param str scale: The SI scale of the measurement (found in openleadr.enums.SI_SCALE_CODE). Defaults
+                          to the scale of the supplied measurement, or else "none".
         :param str unit: The unit for this measurement.
         :param boolean power_ac: Whether the power is AC (True) or DC (False).
                                  Only required when supplying a power-related measurement.
@@ -265,7 +267,7 @@ class OpenADRClient:
             raise ValueError(f"{report_type} is not a valid report_type. Valid options are "
                              f"{', '.join(enums.REPORT_TYPE.values)}"
                              " or any name starting with 'x-'.")
-        if scale not in enums.SI_SCALE_CODE.values:
+        if scale is not None and scale not in enums.SI_SCALE_CODE.values:
             raise ValueError(f"{scale} is not a valid scale. Valid options are "
                              f"{', '.join(enums.SI_SCALE_CODE.values)}")
 
@@ -328,7 +330,7 @@ class OpenADRClient:
         # Pulse counts have a pulse factor instead of a scale.
         if item_base is not None and item_base.pulse_factor is None:
             # The original may be shared with other reports, so don't change it in place.
-            item_base = replace(item_base, scale=scale)
+            item_base = replace(item_base, scale=scale or item_base.scale or "none")
 
         # Check if unit is compatible
         if item_base is not None and unit is not None and unit != item_base.unit:
-- 
2.43.0


From fcec72538da452e73fbf440653f9bd3c246d1a0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:30 +0000
Subject: [PATCH 47/67] fix: the pulse factor of a measurement given as a
 dictionary was lost

---
 openleadr/client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 75e0d13..b5377fb 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -314,6 +314,7 @@ class OpenADRClient:
                                             description=measurement['description'],
                                             unit=measurement['unit'],
                                             scale=measurement.get('scale'),
+                                            pulse_factor=measurement.get('pulse_factor'),
                                             power_attributes=power_attributes)
         elif measurement.upper() in enums.MEASUREMENTS.members:
             item_base = enums.MEASUREMENTS[measurement.upper()]
-- 
2.43.0


From fdcd530af24e3541d6af1f839da2f8b9835ea36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:40:49 +0000
Subject: [PATCH 48/67] fix: a report from the VTN in answer to a poll made the
 client fail with an AttributeError

---
 openleadr/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index b5377fb..0fcc640 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1297,7 +1297,9 @@ class OpenADRClient:
                 await self._on_event(response_payload)
 
         elif response_type == 'oadrUpdateReport':
-            await self._on_report(response_payload)
+            # We don't support receiving reports from the VTN at this moment
+            logger.warning("The VTN sent a report, but OpenLEADR "
+                           "does not support reports in this direction.")
 
         elif response_type == 'oadrCreateReport':
             if 'report_requests' in response_payload:
-- 
2.43.0


From 9a7d5aacbe898f0f69988ca126bf2cc96fb1306a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:15 +0000
Subject: [PATCH 49/67] fix: add_report ignored the meter id of the end device

---
 openleadr/client.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 0fcc640..043d0ed 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -363,11 +363,15 @@ class OpenADRClient:
 
         # Add the new report description to the report
         target = objects.Target(resource_id=resource_id)
+        subject = target
+        if end_device_asset_mrid is not None:
+            subject = objects.Target(resource_id=resource_id,
+                                     end_device_asset=objects.EndDeviceAsset(mrid=end_device_asset_mrid))
         r_id = r_id or utils.generate_id()
         report_description = objects.ReportDescription(r_id=r_id,
                                                        reading_type=reading_type,
                                                        report_data_source=target,
-                                                       report_subject=target,
+                                                       report_subject=subject,
                                                        report_type=report_type,
                                                        sampling_rate=sampling_rate,
                                                        measurement=item_base,
-- 
2.43.0


From 8897d50fbb725791175f6bb246ac98e7a2caef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:49:30 +0000
Subject: [PATCH 50/67] fix: the handler was asked again when a cancelled event
 was received unchanged

---
 openleadr/client.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 043d0ed..1606332 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -1195,11 +1195,8 @@ class OpenADRClient:
                                  f"The error was {err.__class__.__name__}: {str(err)}")
                     result = 'optOut'
                 results.append(result)
-                if event_status in (enums.EVENT_STATUS.COMPLETED, enums.EVENT_STATUS.CANCELLED) \
-                        and event_id in self.responded_events:
-                    self.responded_events.pop(event_id)
-                else:
-                    self.responded_events[event_id] = result
+                # We may receive this event again, also when it was cancelled
+                self.responded_events[event_id] = result
             for i, result in enumerate(results):
                 if result not in ('optIn', 'optOut') and events[i]['response_required'] == 'always':
                     logger.error("Your on_event or on_update_event handler must return 'optIn' or 'optOut'; "
@@ -1280,6 +1277,7 @@ class OpenADRClient:
                     utils.determine_event_status(event['active_period']) == 'completed':
                 logger.info(f"Removing event {event} because it is no longer relevant.")
                 self.received_events.pop(i)
+                self.responded_events.pop(event['event_descriptor']['event_id'], None)
 
     async def _poll(self):
         logger.debug("Now polling for new messages")
-- 
2.43.0


From 1dfd9b41b9b2608663425e74a39eb87903c38835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:58:00 +0000
Subject: [PATCH 51/67] fix: stopping a client that was never started failed
 with an AttributeError

---
 openleadr/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 1606332..dd2af8d 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -188,7 +188,8 @@ class OpenADRClient:
             self.scheduler.shutdown()
         if self.report_queue_task:
             self.report_queue_task.cancel()
-        await self.client_session.close()
+        if self.client_session:
+            await self.client_session.close()
         await asyncio.sleep(0)
 
     def add_handler(self, handler, callback):
-- 
2.43.0


From 784fba90c51a8be02d2213a740bc50a926938da3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 52/67] fix: keep the status of an event that is created as
 cancelled

---
 openleadr/objects.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/openleadr/objects.py b/openleadr/objects.py
index 450e946..3b93867 100644
--- a/openleadr/objects.py
+++ b/openleadr/objects.py
@@ -231,8 +231,9 @@ class Event:
                                  "but the two were not consistent with each other. "
                                  f"You supplied 'targets' = {self.targets} and "
                                  f"'targets_by_type' = {self.targets_by_type}")
-        # Set the event status
-        self.event_descriptor.event_status = utils.determine_event_status(self.active_period)
+        # Set the event status; a cancelled event stays cancelled
+        if self.event_descriptor.event_status != enums.EVENT_STATUS.CANCELLED:
+            self.event_descriptor.event_status = utils.determine_event_status(self.active_period)
 
 
 @dataclass
-- 
2.43.0


From fba7430926973828503fc13e975c468d2b0dc5a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 53/67] fix: register reports whose descriptions leave out the
 optional parts

---
 openleadr/service/report_service.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index b6f5efc..0d75580 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -99,12 +99,12 @@ class ReportService(VTNService):
             if report['report_name'] == 'METADATA_TELEMETRY_STATUS':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload['ven_id'],
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
+                                                       resource_id=(rd.get('report_data_source') or {}).get('resource_id'),
                                                        measurement='Status',
                                                        unit=None,
                                                        scale=None,
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
+                                                       min_sampling_interval=(rd.get('sampling_rate') or {}).get('min_period'),
+                                                       max_sampling_interval=(rd.get('sampling_rate') or {}).get('max_period'))
                                for rd in report['report_descriptions']]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
@@ -112,12 +112,12 @@ class ReportService(VTNService):
             elif report['report_name'] == 'METADATA_TELEMETRY_USAGE':
                 if mode == 'compact':
                     results = [self.on_register_report(ven_id=payload['ven_id'],
-                                                       resource_id=rd.get('report_data_source', {}).get('resource_id'),
-                                                       measurement=rd['measurement']['description'],
-                                                       unit=rd['measurement']['unit'],
-                                                       scale=rd['measurement'].get('scale'),
-                                                       min_sampling_interval=rd['sampling_rate']['min_period'],
-                                                       max_sampling_interval=rd['sampling_rate']['max_period'])
+                                                       resource_id=(rd.get('report_data_source') or {}).get('resource_id'),
+                                                       measurement=(rd.get('measurement') or {}).get('description'),
+                                                       unit=(rd.get('measurement') or {}).get('unit'),
+                                                       scale=(rd.get('measurement') or {}).get('scale'),
+                                                       min_sampling_interval=(rd.get('sampling_rate') or {}).get('min_period'),
+                                                       max_sampling_interval=(rd.get('sampling_rate') or {}).get('max_period'))
                                for rd in report['report_descriptions']]
                     results = await utils.gather_if_required(results)
                 elif mode == 'full':
-- 
2.43.0


From c907d1d0c80c924e91f2c7e2d7694fa8a7e4cd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 54/67] fix: convert and deliver every value when one interval
 holds several report payloads

---
 openleadr/utils.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index ea7d426..d3ad554 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -230,12 +230,14 @@ def normalize_dict(ordered_dict):
 
         # Report payloads contain an r_id and a type-wrapped payload_float
         elif key == 'report_payload':
-            if 'payload_float' in d[key] and 'value' in d[key]['payload_float']:
-                v = d[key].pop('payload_float')
-                d[key]['value'] = float(v['value'])
-            elif 'payload_int' in d[key] and 'value' in d[key]['payload_int']:
-                v = d[key].pop('payload_int')
-                d[key]['value'] = int(v['value'])
+            # There can be several of these in one interval
+            for payload in d[key] if isinstance(d[key], list) else [d[key]]:
+                if 'payload_float' in payload and 'value' in payload['payload_float']:
+                    v = payload.pop('payload_float')
+                    payload['value'] = float(v['value'])
+                elif 'payload_int' in payload and 'value' in payload['payload_int']:
+                    v = payload.pop('payload_int')
+                    payload['value'] = int(v['value'])
 
         # All values other than 'false' must be interpreted as True for testEvent (rule 006)
         elif key == 'test_event' and not isinstance(d[key], bool):
-- 
2.43.0


From bd258a0f6719e4d07218d462fd110eca5f33e8d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 55/67] fix: accept a report update without intervals, and
 status values

---
 openleadr/service/report_service.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/openleadr/service/report_service.py b/openleadr/service/report_service.py
index 0d75580..d25bd64 100644
--- a/openleadr/service/report_service.py
+++ b/openleadr/service/report_service.py
@@ -240,11 +240,20 @@ class ReportService(VTNService):
                 if iscoroutine(result):
                     result = await result
                 continue
-            for r_id, values in utils.group_by(report['intervals'], 'report_payload.r_id').items():
+            # One interval can hold the values of several datapoints
+            intervals = [{**interval, 'report_payload': report_payload}
+                         for interval in report.get('intervals') or []
+                         for report_payload in (interval['report_payload']
+                                                if isinstance(interval['report_payload'], list)
+                                                else [interval['report_payload']])]
+            for r_id, values in utils.group_by(intervals, 'report_payload.r_id').items():
                 # Find the callback that was registered.
                 if (report_request_id, r_id) in self.report_callbacks:
                     # Collect the values
-                    values = [(ri['dtstart'], ri['report_payload']['value']) for ri in values]
+                    # (the value of a status datapoint is its resource status)
+                    values = [(ri['dtstart'], ri['report_payload']['value'] if 'value' in ri['report_payload']
+                               else ri['report_payload'].get('payload_resource_status'))
+                              for ri in values]
                     # Call the callback function to deliver the values
                     result = self.report_callbacks[(report_request_id, r_id)](values)
                     if iscoroutine(result):
-- 
2.43.0


From 53ba4ed526e9000913146695ce2fdea44fc30168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 56/67] fix: order events that have no priority

---
 openleadr/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index d3ad554..daf1946 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -800,7 +800,7 @@ def order_events(events, limit=None, offset=None):
     def event_priority(event):
         # The default and lowest priority is 0, which we should interpret as a high value.
         priority = getmember(event, 'event_descriptor.priority', missing=float('inf'))
-        if priority == 0:
+        if not priority:
             priority = float('inf')
         return priority
 
-- 
2.43.0


From b101c5bfef1c0a77338000e0c8cc8498340933cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 57/67] fix: recognise the ramp-up period of a received event

---
 openleadr/utils.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openleadr/utils.py b/openleadr/utils.py
index daf1946..33c2c3b 100755
--- a/openleadr/utils.py
+++ b/openleadr/utils.py
@@ -632,8 +632,12 @@ def determine_event_status(active_period):
         return 'completed'
     if now >= active_period_start:
         return 'active'
-    if getmember(active_period, 'ramp_up_period', missing=None) is not None:
-        ramp_up_start = active_period_start - getmember(active_period, 'ramp_up_period')
+    ramp_up_period = getmember(active_period, 'ramp_up_period', missing=None)
+    if ramp_up_period is None:
+        # This is what it is called in an event that was received
+        ramp_up_period = getmember(active_period, 'ramp_up', missing=None)
+    if ramp_up_period is not None:
+        ramp_up_start = active_period_start - ramp_up_period
         if now >= ramp_up_start:
             return 'near'
     return 'far'
-- 
2.43.0


From 3d969f71a9f4fdfc16f2f323787cb69f8e1f0a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:29 +0000
Subject: [PATCH 58/67] fix: allow a party registration to be cancelled without
 a venID

---
 openleadr/service/registration_service.py             | 2 +-
 openleadr/templates/oadrCanceledPartyRegistration.xml | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/service/registration_service.py b/openleadr/service/registration_service.py
index 3f26f92..7e5b84b 100644
--- a/openleadr/service/registration_service.py
+++ b/openleadr/service/registration_service.py
@@ -139,7 +139,7 @@ class RegistrationService(VTNService):
             result = await result
         if result is None:
             return 'oadrCanceledPartyRegistration', {'registration_id': payload['registration_id'],
-                                                     'ven_id': payload['ven_id']}
+                                                     'ven_id': payload.get('ven_id')}
         return result
 
     def on_cancel_party_registration(self, ven_id):
diff --git a/openleadr/templates/oadrCanceledPartyRegistration.xml b/openleadr/templates/oadrCanceledPartyRegistration.xml
index d31ba68..a5fd825 100644
--- a/openleadr/templates/oadrCanceledPartyRegistration.xml
+++ b/openleadr/templates/oadrCanceledPartyRegistration.xml
@@ -6,6 +6,8 @@
       <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ response.request_id }}</requestID>
     </ei:eiResponse>
     <ei:registrationID>{{ registration_id }}</ei:registrationID>
+    {% if ven_id is defined and ven_id is not none %}
     <ei:venID>{{ ven_id }}</ei:venID>
+    {% endif %}
   </oadr:oadrCanceledPartyRegistration>
 </oadr:oadrSignedObject>
\ No newline at end of file
-- 
2.43.0


From ff374a321681df0705361f9566b83763f38b72bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:10 +0000
Subject: [PATCH 59/67] fix: reports that are collected in one go were
 collected at every sampling interval, sending their values again and again

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index dd2af8d..361ad7b 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -819,6 +819,9 @@ class OpenADRClient:
                         callback = partial(self.update_report, report_request_id=report_request_id)
                         
                         reporting_interval = granularity or report_back_duration
+                        if report.data_collection_mode == 'full':
+                            # All the values of the reporting interval are collected at once
+                            reporting_interval = max(reporting_interval, report_back_duration)
                         job = self.scheduler.add_job(func=callback,
                                                     trigger='cron',
                                                     **utils.cron_config(reporting_interval))
-- 
2.43.0


From fc4ffdd816b66c92e9af5e31572b480caee7d13d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:55 +0000
Subject: [PATCH 60/67] fix: cancelling a report that was not complete lost the
 values that were already collected

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 361ad7b..1b845f9 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -988,6 +988,9 @@ class OpenADRClient:
                                             response=response,
                                             ven_id=self.ven_id,
                                             report_request_id=report_request_id)
+            # Send the values that were already collected for a report that is not complete
+            if report_request_id in self.incomplete_reports:
+                await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
             self.report_requests.remove(report_request)
             await self._perform_request(service, message)
         else:
-- 
2.43.0


From be28a198a1f0aa852f935fec4fd8aa42d2c562d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:11 +0000
Subject: [PATCH 61/67] fix: cancelling the request for a report that does not
 exist failed if a last report was asked for

---
 openleadr/client.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/client.py b/openleadr/client.py
index 1b845f9..43116dc 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -875,6 +875,9 @@ class OpenADRClient:
         report_back_duration = report_request['report_back_duration']
         report_specifier_id = report_request['report_specifier_id']
         report = utils.find_by(self.reports, 'report_specifier_id', report_specifier_id)
+        if not report:
+            logger.error(f"There is no report with report_specifier_id {report_specifier_id} to update.")
+            return
         data_collection_mode = report.data_collection_mode
 
         if report_request_id in self.incomplete_reports:
-- 
2.43.0


From dc09fd37376724e82462b2a421351614f685962e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:13:59 +0000
Subject: [PATCH 62/67] fix: cancelling several reports with one message
 cancelled none of them

---
 openleadr/client.py | 52 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/openleadr/client.py b/openleadr/client.py
index 43116dc..8c34d26 100755
--- a/openleadr/client.py
+++ b/openleadr/client.py
@@ -957,9 +957,16 @@ class OpenADRClient:
         """
         Cancel this report.
         """
-        report_request_id = payload['report_request_id']
-        report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
-        if report_request:
+        report_request_ids = payload['report_request_id']
+        if not isinstance(report_request_ids, list):
+            # There can be several of these in one message
+            report_request_ids = [report_request_ids]
+        cancelled = []
+        for report_request_id in report_request_ids:
+            report_request = utils.find_by(self.report_requests, 'report_request_id', report_request_id)
+            if not report_request:
+                logger.error(f"Report with report_request_id {report_request_id} was not found.")
+                continue
             if len(report_request['r_ids']) > 0:
                 # Update the report one last time before cancelling
                 logging.info(f"Updating one last time report with report_request_id {report_request_id}")
@@ -969,35 +976,36 @@ class OpenADRClient:
             if report_request['job']:
                 report_request['job'].remove()
             logger.info(f"Report with report_request_id {report_request_id} has been cancelled.")
-            service = 'EiReport'
-            message_type = 'oadrCanceledReport'
-            response = {'response_code': 200,
-                        'response_description': 'OK',
-                        'request_id': payload['request_id']}
             if payload['report_to_follow'] == True:
                 logger.info(f"Report with report_request_id {report_request_id} will be followed by a new report.")
-                # Send oadrCanceledReport with oadrPendingReport message
-                message_payload = {'pending_reports': [{'report_request_id': report_request_id}]}
-                message = self._create_message(message_type,
-                                            response=response,
-                                            ven_id=self.ven_id,
-                                            report_request_id=report_request_id,
-                                            **message_payload)
                 await self.update_report(report_request_id)
             else:
                 logger.info(f"Report with report_request_id {report_request_id} will not be followed by a new report.")
-                # Send simple oadrCanceledReport message
-                message = self._create_message(message_type,
-                                            response=response,
-                                            ven_id=self.ven_id,
-                                            report_request_id=report_request_id)
             # Send the values that were already collected for a report that is not complete
             if report_request_id in self.incomplete_reports:
                 await self.pending_reports.put(self.incomplete_reports.pop(report_request_id))
             self.report_requests.remove(report_request)
-            await self._perform_request(service, message)
+            cancelled.append(report_request_id)
+        if not cancelled:
+            return
+
+        service = 'EiReport'
+        message_type = 'oadrCanceledReport'
+        response = {'response_code': 200,
+                    'response_description': 'OK',
+                    'request_id': payload['request_id']}
+        if payload['report_to_follow'] == True:
+            # Send oadrCanceledReport with oadrPendingReport message
+            message_payload = {'pending_reports': [{'report_request_id': report_request_id}
+                                                   for report_request_id in cancelled]}
         else:
-            logger.error(f"Report with report_request_id {report_request_id} was not found.")
+            # Send simple oadrCanceledReport message
+            message_payload = {}
+        message = self._create_message(message_type,
+                                       response=response,
+                                       ven_id=self.ven_id,
+                                       **message_payload)
+        await self._perform_request(service, message)
 
     async def _report_queue_worker(self):
         """
-- 
2.43.0


From d326119ae8e6ffc67ca29bdaa93b56e48d156be5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:15:33 +0000
Subject: [PATCH 63/67] fix: messages that cancel one or several reports were
 malformed, depending on how the ids were given

---
 openleadr/templates/oadrCancelReport.xml  | 2 ++
 openleadr/templates/oadrUpdatedReport.xml | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/openleadr/templates/oadrCancelReport.xml b/openleadr/templates/oadrCancelReport.xml
index c0860ff..20a7786 100644
--- a/openleadr/templates/oadrCancelReport.xml
+++ b/openleadr/templates/oadrCancelReport.xml
@@ -1,7 +1,9 @@
 <oadr:oadrSignedObject xmlns:oadr="http://openadr.org/oadr-2.0b/2012/07" oadr:Id="oadrSignedObject">
   <oadr:oadrCancelReport ei:schemaVersion="2.0b" xmlns:ei="http://docs.oasis-open.org/ns/energyinterop/201110">
     <requestID xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ request_id }}</requestID>
+    {% for report_request_id in ([report_request_id] if report_request_id is string else report_request_id) %}
     <ei:reportRequestID>{{ report_request_id }}</ei:reportRequestID>
+    {% endfor %}
     <reportToFollow xmlns="http://docs.oasis-open.org/ns/energyinterop/201110/payloads">{{ report_to_follow|booleanformat }}</reportToFollow>
     <ei:venID>{{ ven_id }}</ei:venID>
   </oadr:oadrCancelReport>
diff --git a/openleadr/templates/oadrUpdatedReport.xml b/openleadr/templates/oadrUpdatedReport.xml
index 096015d..5c60c9b 100644
--- a/openleadr/templates/oadrUpdatedReport.xml
+++ b/openleadr/templates/oadrUpdatedReport.xml
@@ -12,7 +12,7 @@
     {% if cancel_report is defined and cancel_report is not none %}
     <oadr:oadrCancelReport>
       <pyld:requestID>{{ cancel_report.request_id }}</pyld:requestID>
-      {% for report_request_id in cancel_report.report_request_id %}
+      {% for report_request_id in ([cancel_report.report_request_id] if cancel_report.report_request_id is string else cancel_report.report_request_id) %}
       <ei:reportRequestID>{{ report_request_id }}</ei:reportRequestID>
       {% endfor %}
       <pyld:reportToFollow>{{ cancel_report.report_to_follow|booleanformat }}</pyld:reportToFollow>
-- 
2.43.0


From 239a70d3bcd2adce22ffe491d85ca6233cf3e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:18 +0000
Subject: [PATCH 64/67] fix: an event that cannot be sent was accepted and
 blocked the delivery of all others

---
 openleadr/server.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/openleadr/server.py b/openleadr/server.py
index 352c015..364b5a2 100755
--- a/openleadr/server.py
+++ b/openleadr/server.py
@@ -18,7 +18,9 @@ from aiohttp import web
 from openleadr.service import EventService, PollService, RegistrationService, ReportService, \
                               VTNService
 from openleadr.messaging import create_message
+from openleadr.preflight import preflight_message
 from openleadr import objects, enums, utils
+from copy import deepcopy
 from functools import partial
 from datetime import datetime, timedelta, timezone
 import asyncio
@@ -305,6 +307,9 @@ class OpenADRServer:
         if not utils.getmember(event, 'event_descriptor.priority', None):
             utils.setmember(event, 'event_descriptor.priority', 0)
 
+        # An event that can't be sent would also prevent the VEN's other events from being delivered
+        preflight_message('oadrDistributeEvent', {'events': [deepcopy(event)]})
+
         # Add event to the queue
         self.events[ven_id].append(event)
         self.events_updated[ven_id] = True
-- 
2.43.0


From 0999375f1e8ac14173358dbdd7c05e1e3e538765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:18 +0000
Subject: [PATCH 65/67] fix: the tolerance of an event period made its message
 invalid, and those of report intervals were dropped

---
 openleadr/templates/parts/eiActivePeriod.xml  |  2 +-
 .../templates/parts/oadrReportRequest.xml     | 22 +++++++++++++++++++
 2 files changed, 23 insertions(+), 1 deletion(-)

diff --git a/openleadr/templates/parts/eiActivePeriod.xml b/openleadr/templates/parts/eiActivePeriod.xml
index 6e9675c..eaeec9b 100644
--- a/openleadr/templates/parts/eiActivePeriod.xml
+++ b/openleadr/templates/parts/eiActivePeriod.xml
@@ -9,7 +9,7 @@
         {% if event.active_period.tolerance %}
         <tolerance>
             <tolerate>
-                <startafter>{{ event.active_period.tolerance.startafter|timedeltaformat }}</startafter>
+                <startafter>{{ (event.active_period.tolerance.tolerate or event.active_period.tolerance).startafter|timedeltaformat }}</startafter>
             </tolerate>
         </tolerance>
         {% endif %}
diff --git a/openleadr/templates/parts/oadrReportRequest.xml b/openleadr/templates/parts/oadrReportRequest.xml
index 68c1032..f465694 100644
--- a/openleadr/templates/parts/oadrReportRequest.xml
+++ b/openleadr/templates/parts/oadrReportRequest.xml
@@ -19,6 +19,28 @@
         <xcal:duration>
           <xcal:duration>{{ report_request.report_specifier.report_interval.duration|timedeltaformat }}</xcal:duration>
         </xcal:duration>
+        {% if report_request.report_specifier.report_interval.tolerance %}
+        <xcal:tolerance>
+          <xcal:tolerate>
+            <xcal:startafter>{{ (report_request.report_specifier.report_interval.tolerance.tolerate or report_request.report_specifier.report_interval.tolerance).startafter|timedeltaformat }}</xcal:startafter>
+          </xcal:tolerate>
+        </xcal:tolerance>
+        {% endif %}
+        {% if report_request.report_specifier.report_interval.notification %}
+        <ei:x-eiNotification>
+          <xcal:duration>{{ report_request.report_specifier.report_interval.notification|timedeltaformat }}</xcal:duration>
+        </ei:x-eiNotification>
+        {% endif %}
+        {% if report_request.report_specifier.report_interval.ramp_up %}
+        <ei:x-eiRampUp>
+          <xcal:duration>{{ report_request.report_specifier.report_interval.ramp_up|timedeltaformat }}</xcal:duration>
+        </ei:x-eiRampUp>
+        {% endif %}
+        {% if report_request.report_specifier.report_interval.recovery %}
+        <ei:x-eiRecovery>
+          <xcal:duration>{{ report_request.report_specifier.report_interval.recovery|timedeltaformat }}</xcal:duration>
+        </ei:x-eiRecovery>
+        {% endif %}
       </xcal:properties>
     </ei:reportInterval>
     {% endif %}
-- 
2.43.0


From cfae26769f4a41f94ab7a08feee851a3fc6b9b51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:18 +0000
Subject: [PATCH 66/67] fix: messages were accepted if something else than
 their contents or replay protection was signed

---
 openleadr/messaging.py | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/openleadr/messaging.py b/openleadr/messaging.py
index a812ec9..a437b5b 100644
--- a/openleadr/messaging.py
+++ b/openleadr/messaging.py
@@ -18,6 +18,7 @@ from lxml import etree
 import xmltodict
 from jinja2 import Environment, PackageLoader
 from signxml import XMLSigner, XMLVerifier, methods
+from signxml.exceptions import InvalidSignature
 from uuid import uuid4
 from lxml.etree import Element
 from openleadr import errors
@@ -110,6 +111,7 @@ def validate_xml_signature(xml_tree, cert_fingerprint=None):
                                              f"Expected: {cert_fingerprint}; "
                                              f"Received: {fingerprint}. Ignoring message.")
     VERIFIER.verify(xml_tree, x509_cert=utils.ensure_bytes(cert), expect_references=2)
+    _verify_signed_elements(xml_tree)
     _verify_replay_protect(xml_tree)
 
 
@@ -187,6 +189,29 @@ def _create_replay_protect():
     return el
 
 
+def _verify_signed_elements(xml_tree):
+    """
+    Verify that the elements that we use are (part of) the elements that were signed. A valid
+    signature does not say that: the elements that it refers to can be anywhere in the message.
+    """
+    references = [reference.get('URI') for reference in
+                  xml_tree.find(f".//{DS}Signature").findall(f"{DS}SignedInfo/{DS}Reference")]
+    for path in (f"{OADR}oadrSignedObject", f".//{DSP}timestamp", f".//{DSP}nonce"):
+        element = xml_tree.find(path)
+        if element is not None and not any(_get_reference(parent) in references
+                                           for parent in (element, *element.iterancestors())):
+            raise InvalidSignature(f"The {etree.QName(element).localname} of the message was not signed.")
+
+
+def _get_reference(element):
+    """
+    Return the URI by which a signature can refer to this element.
+    """
+    for name, value in element.attrib.items():
+        if etree.QName(name).localname == 'Id':
+            return f"#{value}"
+
+
 def _verify_replay_protect(xml_tree):
     try:
         ns = "{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}"
@@ -215,6 +240,11 @@ def _update_nonce_cache(timestamp, nonce):
 REPLAY_PROTECT_MAX_TIME_DELTA = timedelta(seconds=5)
 NONCE_CACHE = set()
 
+# Namespaces of the elements that are involved in message signing
+DS = "{http://www.w3.org/2000/09/xmldsig#}"
+DSP = "{http://openadr.org/oadr-2.0b/2012/07/xmldsig-properties}"
+OADR = "{http://openadr.org/oadr-2.0b/2012/07}"
+
 # Settings for jinja2
 TEMPLATES = Environment(loader=PackageLoader('openleadr', 'templates'), autoescape=True)
 TEMPLATES.filters['datetimeformat'] = utils.datetimeformat
-- 
2.43.0


From be3f8a95ff03136dca3e05bd208b82eae5b1b2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:26:18 +0000
Subject: [PATCH 67/67] fix: messages that do not say which VEN they are from
 were not authenticated

---
 openleadr/service/vtn_service.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openleadr/service/vtn_service.py b/openleadr/service/vtn_service.py
index 7438de0..cf0867b 100644
--- a/openleadr/service/vtn_service.py
+++ b/openleadr/service/vtn_service.py
@@ -92,6 +92,9 @@ class VTNService:
                     logger.error("Could not authenticate this VEN because "
                                  "you did not provide a 'ven_lookup' function. Please see "
                                  "https://openleadr.org/docs/server.html#signing-messages for info.")
+            elif request.secure and message_type not in ('oadrCreatePartyRegistration', 'oadrQueryRegistration') \
+                    and (hasattr(self, 'fingerprint_lookup') or hasattr(self, 'ven_lookup')):
+                raise errors.NotRegisteredOrAuthorizedError("Your message must contain your venID.")
 
             # Pass the message off to the handler and get the response type and payload
             try:
-- 
2.43.0

