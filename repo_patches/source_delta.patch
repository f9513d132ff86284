From 8da3c2e0a1db528f73f6294d8c9f35b6cc4bad20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 01/32] fix: don't restart the round when a data collector
 lists its counters

get_counter_list() checked the start config again, which replaced the start
time of the running round, and failed while a noise delay was enforced.
---
 privcount/data_collector.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 13e8b9b..60cd793 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -120,12 +120,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         Return the list of counters we are collecting, or None if we haven't
         started yet.
         '''
-        if self.start_config is None:
+        if self.aggregator is None:
             return None
         else:
-            # we should have caught unknown counters when we started
-            return self.check_start_config(self.start_config,
-                                           allow_unknown_counters=False)
+            # checking the start config again would restart the round
+            return self.aggregator.collection_counters
 
     def are_dc_events_expected(self):
         '''
-- 
2.43.0


From 4d9a8f3b4f9eb848f85bf89426c80c6144138560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 02/32] fix: a start command during a round must not change the
 running round

A data collector that is still running refuses to start, but it had already
replaced the start config, noise config and start time of the running round.
---
 privcount/data_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 60cd793..356a5a4 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -199,6 +199,11 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         to start a new collection phase
         return None if failure, otherwise json will encode result
         '''
+        # if we are still running from a previous incarnation, we need to stop
+        # first
+        if self.aggregator is not None:
+            return None
+
         # keep the start config to send to the TS at the end of the collection
         # deepcopy in case we make any modifications later
         self.start_config = deepcopy(config)
@@ -213,11 +218,6 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         if dc_counters is None:
             return None
 
-        # if we are still running from a previous incarnation, we need to stop
-        # first
-        if self.aggregator is not None:
-            return None
-
         # we require that only the configured share keepers be used in the
         # collection phase, because we must be able to encrypt messages to them
         expected_sk_digests = set()
-- 
2.43.0


From 39d6f6b09ef40290829687772755b30993dff2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:53 +0000
Subject: [PATCH 03/32] fix: refuse unexpected share keeper keys without an
 exception

---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 356a5a4..b76ca50 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -234,7 +234,7 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 logging.info('we received an unexpected key for share keeper {}'.format(sk_uid))
                 digest_error = True
 
-            expected_sk_digests.remove(requested_sk_digest)
+            expected_sk_digests.discard(requested_sk_digest)
 
         if digest_error or len(expected_sk_digests) != 0:
             logging.info('refusing to start collecting without required share keepers')
-- 
2.43.0


From 8491e5f3ccfba094dd74b42a7bc454b1a633a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 04/32] fix: a share keeper that refuses a round discards the
 shares it imported

---
 privcount/share_keeper.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index b1ce3ad..358fc3c 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -141,8 +141,11 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
         else:
             config['counters'] = combined_counters
 
-        self.keystore = SecureCounters(config['counters'], counter_modulus(),
-                                       require_generate_noise=False)
+        # only keep the shares if we import all of them: otherwise, we aren't
+        # participating in this round, and we must not send a partial sum
+        self.keystore = None
+        keystore = SecureCounters(config['counters'], counter_modulus(),
+                                  require_generate_noise=False)
         share_list = config['shares']
 
         private_key = load_private_key_file(self.config['key'])
@@ -151,7 +154,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
             secret = decrypt(private_key, encrypted_secret)
             # TODO: secure delete
             share['secret'] = secret
-            blinding_result = self.keystore.import_blinding_share(share)
+            blinding_result = keystore.import_blinding_share(share)
             if not blinding_result:
                 # the structure of the imported share did not match the
                 # configured counters
@@ -167,6 +170,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                      .format(len(share_list), len(config['counters']), count_bins(config['counters'])))
         # TODO: secure delete
         del private_key
+        self.keystore = keystore
         return {}
 
     def do_stop(self, config):
-- 
2.43.0


From e3b6e1e5bae3ca00d3d7c35461d126df2a9fdf86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 05/32] fix: check domain suffixes when there is no exact match

With both exact and suffix domain counters, a failed exact match (+inf) was
taken for a match, so the suffixes were never checked.
---
 privcount/data_collector.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index b76ca50..481c2b7 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1476,7 +1476,8 @@ class Aggregator(ReconnectingClientFactory):
                 # exact matches match the first bin
                 # suffix matches match an arbitrary bin (which is ok, because
                 # the suffix lists should be disjoint)
-                if self.needs_domain_exact_match and domain_exact_match_bin is not None:
+                if (domain_exact_match_bin is not None and
+                    domain_exact_match_bin < float('inf')):
                     domain_suffix_match_bin = domain_exact_match_bin
                 else:
                     # check for a suffix match
-- 
2.43.0


From 61d1e28dd4e6f96ed3a4d45f6d77a50d7d6cddf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 06/32] fix: validate circuit flags before using their values

A malformed flag failed an assertion instead of being rejected.
---
 privcount/data_collector.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 481c2b7..44696c8 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1949,11 +1949,6 @@ class Aggregator(ReconnectingClientFactory):
         if prefix is None:
             prefix = ""
 
-        # Work around some unexpected flags from Tor
-        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
-                                                    is_mandatory=is_mandatory,
-                                                    prefix=prefix)
-
         # Validate the potentially mandatory fields
 
         if not is_float_valid("EventTimestamp",
@@ -2086,6 +2081,11 @@ class Aggregator(ReconnectingClientFactory):
                             min_value=1, max_value=None):
             return False
 
+        # Work around some unexpected (but valid) flags from Tor
+        Aggregator.make_circuit_common_fields_valid(fields, event_desc,
+                                                    is_mandatory=is_mandatory,
+                                                    prefix=prefix)
+
         # if everything passed, this much is ok
         return True
 
-- 
2.43.0


From 2e10493c065f0b6b23e021fa0513867d102904fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 07/32] fix: reject event fields that are not finite numbers

A NaN is the placeholder for a missing bin, so it failed an assertion when
the event was counted.
---
 privcount/tagged_event.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/privcount/tagged_event.py b/privcount/tagged_event.py
index e6213b3..b26d53b 100644
--- a/privcount/tagged_event.py
+++ b/privcount/tagged_event.py
@@ -8,6 +8,8 @@ See LICENSE for licensing information
 
 import logging
 
+from math import isinf, isnan
+
 from privcount.config import validate_ip_address
 from privcount.log import summarise_string
 
@@ -249,6 +251,11 @@ def is_float_valid(field_name, fields, event_desc,
                         .format(field_name, fields[field_name], e,
                                 event_desc))
         return False
+    if isnan(field_value) or isinf(field_value):
+        # not a number we can count with
+        logging.warning("Ignored {} '{}', must be finite {}"
+                        .format(field_name, fields[field_name], event_desc))
+        return False
     if min_value is not None and field_value < min_value:
         logging.warning("Ignored {} '{}', must be at least {} {}"
                         .format(field_name, field_value, min_value,
-- 
2.43.0


From 2064ec2766e3897f1d27479ef3cbac4c93d2bdc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:49 +0000
Subject: [PATCH 08/32] fix: reject malformed positional events without an
 exception

---
 privcount/data_collector.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 44696c8..b5198d1 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -1183,8 +1183,13 @@ class Aggregator(ReconnectingClientFactory):
     def _handle_bytes_event(self, items):
         assert(len(items) == Aggregator.STREAM_BYTES_ITEMS)
 
-        chanid, circid, strmid, is_outbound, bw_bytes = [int(v) for v in items[0:5]]
-        ts = float(items[5])
+        try:
+            chanid, circid, strmid, is_outbound, bw_bytes = [int(v) for v in items[0:5]]
+            ts = float(items[5])
+        except ValueError as e:
+            logging.warning("Rejected malformed PRIVCOUNT_STREAM_BYTES_TRANSFERRED event: {}"
+                            .format(e))
+            return False
 
         # TODO: secure delete
         #del items
@@ -1335,11 +1340,19 @@ class Aggregator(ReconnectingClientFactory):
     def _handle_stream_event(self, items):
         assert(len(items) == Aggregator.STREAM_ENDED_ITEMS)
 
-        chanid, circid, strmid, port, readbw, writebw = [int(v) for v in items[0:6]]
-        start, end = float(items[6]), float(items[7])
+        try:
+            chanid, circid, strmid, port, readbw, writebw = [int(v) for v in items[0:6]]
+            start, end = float(items[6]), float(items[7])
+            exit_stream_number = int(items[10])
+        except ValueError as e:
+            logging.warning("Rejected malformed PRIVCOUNT_STREAM_ENDED event: {}"
+                            .format(e))
+            return False
+        if math.isnan(end - start) or math.isinf(end - start):
+            logging.warning("Rejected malformed PRIVCOUNT_STREAM_ENDED event: times must be finite")
+            return False
         remote_host = items[8]
         remote_ip = items[9]
-        exit_stream_number = int(items[10])
 
         # TODO: secure delete
         #del items
-- 
2.43.0


From 812891352ac0e84e7a09f5849cdab42ea5dc4aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 09/32] fix: count hidden service circuits by version, role and
 hop

The version was put after the role in the counter name, and the Tor2Web hop
was misspelt, so these counters were never incremented.
---
 privcount/data_collector.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index b5198d1..be3b31a 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2558,12 +2558,14 @@ class Aggregator(ReconnectingClientFactory):
                                                     hs_version,
                                                     is_active,
                                                     is_failure,
+                                                    counter_role="",
                                                     bin=SINGLE_BIN,
                                                     inc=1):
         '''
         Increment bin by inc for the counter variants starting with
         counter_prefix and ending in counter_suffix, using hs_version,
-        is_active and is_failure to create counter names.
+        counter_role, is_active and is_failure to create counter names.
+        The version comes between counter_prefix and counter_role.
 
         Unknown counter names are ignored.
         '''
@@ -2572,7 +2574,8 @@ class Aggregator(ReconnectingClientFactory):
         assert hs_version is None or hs_version == 2 or hs_version == 3
 
         # HSDir/Intro/Rend ...
-        self._increment_circuit_close_status_counters(counter_prefix,
+        self._increment_circuit_close_status_counters('{}{}'
+                                                      .format(counter_prefix, counter_role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2586,8 +2589,9 @@ class Aggregator(ReconnectingClientFactory):
         else:
             hs_version_name = '{}'.format(hs_version)
 
-        self._increment_circuit_close_status_counters('{}{}'
-                                                      .format(counter_prefix, hs_version_name),
+        self._increment_circuit_close_status_counters('{}{}{}'
+                                                      .format(counter_prefix, hs_version_name,
+                                                              counter_role),
                                                       counter_suffix,
                                                       is_active,
                                                       is_failure,
@@ -2727,7 +2731,7 @@ class Aggregator(ReconnectingClientFactory):
             if hs_role is None:
                 hop = None
             elif hs_role == "Client":
-                hop = "Tor2web"
+                hop = "Tor2Web"
             else:
                 hop = "SingleOnion"
         else:
@@ -2746,24 +2750,25 @@ class Aggregator(ReconnectingClientFactory):
         if hs_role is not None:
             # HSDir /2/3 Client/Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 Client/Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}'
-                                                             .format(position, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
                                                              is_failure,
+                                                             counter_role=hs_role,
                                                              bin=bin,
                                                              inc=inc)
 
             assert hop is not None
             # HSDir /2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/CellRatio/LifeTime
             # Intro/Rend /U/2/3 {Tor2Web,MultiHop}Client/{SingleOnion,MultiHop}Service /Active/Inactive /Failure/Success Circuit Count/{Inbound,Outbound}Cell{Count,Histogram}/(Active)CellRatio/LifeTime
-            self._increment_circuit_close_hs_status_counters('{}{}{}'
-                                                             .format(position, hop, hs_role),
+            self._increment_circuit_close_hs_status_counters(position,
                                                              counter_suffix,
                                                              hs_version,
                                                              is_active,
                                                              is_failure,
+                                                             counter_role='{}{}'
+                                                             .format(hop, hs_role),
                                                              bin=bin,
                                                              inc=inc)
 
-- 
2.43.0


From 202f89feb367f377a9e7a49ffbca370059cc4029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:57 +0000
Subject: [PATCH 10/32] fix: count active and inactive circuits by failure and
 success

The format string had one place too few, so the counter name lost its suffix.
---
 privcount/data_collector.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index be3b31a..b720a19 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -2548,7 +2548,7 @@ class Aggregator(ReconnectingClientFactory):
                                            inc=inc)
 
             # Prefix Active/Inactive Failure/Success Circuit Suffix
-            self.secure_counters.increment('{}{}Circuit{}'
+            self.secure_counters.increment('{}{}{}Circuit{}'
                                            .format(counter_prefix, activity, status, counter_suffix),
                                            bin=bin,
                                            inc=inc)
-- 
2.43.0


From e2344c32c98b61188f475a59dc6bd83adc82db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 11/32] fix: collect the circuit count of a stream traffic
 model

---
 privcount/traffic_model.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 7e36aa5..b25b582 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -508,10 +508,14 @@ class HiddenMarkovModel(object):
         ExitCircuitTrafficModelEmissionCount
         ExitCircuitTrafficModelLogDelayTime
         ExitCircuitTrafficModelSquaredLogDelayTime
-        ExitCircuitTrafficModelStreamCount
+        ExitCircuitTrafficModelCircuitCount
         ExitCircuitTrafficModelTransitionCount
         '''
-        static_labels = ['{}StreamCount'.format(self.prefix),
+        # the stream model counts circuits, see increment_streams_counters()
+        count_label = 'ExitCircuitTrafficModelCircuitCount'
+        if not count_label.startswith(self.prefix):
+            count_label = '{}StreamCount'.format(self.prefix)
+        static_labels = [count_label,
                          '{}EmissionCount'.format(self.prefix),
                          '{}TransitionCount'.format(self.prefix),
                          '{}DelayTime'.format(self.prefix),
-- 
2.43.0


From a8309bb3e746f899de6076dccf5f57585aa821b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:26 +0000
Subject: [PATCH 12/32] fix: reject malformed viterbi paths without an
 exception

---
 privcount/data_collector.py |  8 +++++++-
 privcount/traffic_model.py  | 14 ++++++++++++++
 2 files changed, 21 insertions(+), 1 deletion(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index b720a19..2691364 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -25,7 +25,7 @@ from privcount.match import exact_match_prepare_collection, exact_match, suffix_
 from privcount.node import PrivCountClient, EXPECTED_EVENT_INTERVAL_MAX, EXPECTED_CONTROL_ESTABLISH_MAX
 from privcount.protocol import PrivCountClientProtocol, TorControlClientProtocol, get_privcount_version
 from privcount.tagged_event import parse_tagged_event, is_string_valid, is_list_valid, is_int_valid, is_flag_valid, is_float_valid, is_ip_address_valid, get_string_value, get_list_value, get_int_value, get_flag_value, get_float_value, get_ip_address_value, get_ip_address_object
-from privcount.traffic_model import TrafficModel, check_traffic_model_config
+from privcount.traffic_model import TrafficModel, check_traffic_model_config, is_viterbi_path_valid
 
 SINGLE_BIN = SecureCounters.SINGLE_BIN
 
@@ -2204,6 +2204,9 @@ class Aggregator(ReconnectingClientFactory):
                                  fields, event_desc,
                                  is_mandatory=True)
 
+        if not is_viterbi_path_valid(viterbi_result):
+            return False
+
         # let the traffic model decode the viterbi result
         self.traffic_model.increment_packets_counters(viterbi_result, self.secure_counters)
 
@@ -2236,6 +2239,9 @@ class Aggregator(ReconnectingClientFactory):
                                  fields, event_desc,
                                  is_mandatory=True)
 
+        if not is_viterbi_path_valid(viterbi_result):
+            return False
+
         # let the traffic model decode the viterbi result
         self.traffic_model.increment_streams_counters(viterbi_result, self.secure_counters)
 
diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index b25b582..775665a 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -226,6 +226,20 @@ def normalize_traffic_model_config(model_config):
         model_config['stream_model'] = __normalize_traffic_model_config_helper(model_config['stream_model'])
     return model_config
 
+def is_viterbi_path_valid(viterbi_result):
+    '''
+    Return True if viterbi_result is a json list of observations that the
+    models can count, see HiddenMarkovModel.increment_counters().
+    '''
+    try:
+        for packet in loads(viterbi_result.replace(';',',')):
+            if len(packet) >= 3:
+                str(packet[0]), str(packet[1]), int(packet[2])
+    except (ValueError, TypeError, LookupError, OverflowError) as e:
+        logging.warning("Invalid viterbi path: {}".format(e))
+        return False
+    return True
+
 class TrafficModel(object):
     '''
     A class that represents a traffic model, i.e., a combination
-- 
2.43.0


From 3a7f40b2e091211d89db7723fbb97b0fe39c8b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:52 +0000
Subject: [PATCH 13/32] fix: expected noise ratio ignored the circuit sample
 rate

---
 privcount/statistics_noise.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/privcount/statistics_noise.py b/privcount/statistics_noise.py
index efaebed..95cb528 100644
--- a/privcount/statistics_noise.py
+++ b/privcount/statistics_noise.py
@@ -357,7 +357,8 @@ def get_noise_allocation(noise_parameters,
         noise_ratio = get_expected_noise_ratio(
             excess_noise_ratio,
             counters[stat]['sigma'],
-            counters[stat]['estimated_value'])
+            # the expected value, scaled by circuit_sample_rate
+            stats_parameters[stat][1])
         counters[stat]['expected_noise_ratio'] = noise_ratio
     if sanity_check is not None:
         counters[sanity_check] = get_sanity_check_counter()
-- 
2.43.0


From ea610b54959a7046999252135f70929f14df2909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:46 +0000
Subject: [PATCH 14/32] fix: the server accepted a handshake without a client
 HMAC

---
 privcount/protocol.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 6adb4bb..5e16b88 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -936,7 +936,9 @@ class PrivCountServerProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE3))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE4:
-            if self.handshake4_verify(event_line):
+            # the client must have proved that it knows the secret key,
+            # by sending a valid HANDSHAKE2 on this connection
+            if self.client_cookie and self.handshake4_verify(event_line):
                 self.handshake_succeeded()
             else:
                 self.handshake_failed()
-- 
2.43.0


From c95eca496ab9e61203a74e27e832f4c51acb6e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:46 +0000
Subject: [PATCH 15/32] fix: a client stopped when a server sent its HMAC
 before its cookie

---
 privcount/protocol.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 5e16b88..46f8a27 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1072,10 +1072,12 @@ class PrivCountClientProtocol(PrivCountProtocol):
                                        PrivCountProtocol.HANDSHAKE2))
                 self.handshake_failed()
         elif event_type == PrivCountProtocol.HANDSHAKE3:
-            if self.handshake3_verify(event_line,
-                                      self.handshake_secret(),
-                                      self.server_cookie,
-                                      self.client_cookie):
+            # a HANDSHAKE3 before a HANDSHAKE1 is always invalid
+            if (self.client_cookie and
+                self.handshake3_verify(event_line,
+                                       self.handshake_secret(),
+                                       self.server_cookie,
+                                       self.client_cookie)):
                 self.sendLine(self.handshake4_str())
                 self.handshake_succeeded()
             else:
-- 
2.43.0


From dd85ef0fff8b02bc022338747d3c305817c6e9c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 16/32] fix: a control password or cookie that is too short was
 used

---
 privcount/protocol.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 46f8a27..d271cef 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1479,6 +1479,7 @@ class TorControlProtocol(object):
                                 .format(secret_file,
                                         len(secret_string),
                                         min_len))
+                return None
             if len(secret_string) > max_len:
                 logging.warning("Authentication failed, file '{}' was wrong length {}, wanted at most {}"
                                 .format(secret_file,
-- 
2.43.0


From 48e79fde508af252de30780bfdd743049745a0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 17/32] fix: quoting a control string with quotes or
 backslashes failed

---
 privcount/protocol.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index d271cef..b494f31 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1208,9 +1208,9 @@ class TorControlProtocol(object):
             # quoted strings escape \ and " with \, then quote with "
             # the order of these replacements is important: they ensure that
             # " becomes \" rather than \\"
-            cont_str = cont_str.replace("\\", "\\\\")
-            cont_str = cont_str.replace("\"", "\\\"")
-            encoded = "\"" + cont_str + "\""
+            quoted_str = cont_str.replace("\\", "\\\\")
+            quoted_str = quoted_str.replace("\"", "\\\"")
+            encoded = "\"" + quoted_str + "\""
         # sanity check
         assert TorControlProtocol.decodeControllerString(encoded) == cont_str
         return encoded
-- 
2.43.0


From d184b34e1abe8159b5c5028495ebdc9544971207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:05 +0000
Subject: [PATCH 18/32] fix: refuse unknown control port events without an
 exception

---
 privcount/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index b494f31..db73fa4 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2488,7 +2488,7 @@ class TorControlServerProtocol(LineOnlyReceiver, TorControlProtocol):
                     # this line displays the event name uppercased
                     # that's a minor, irrelevant protocol difference
                     self.sendLine('552 Unrecognized event "{}"'
-                                  .format(unknown_events[0]))
+                                  .format(sorted(unknown_events)[0]))
                     self.factory.stop_injecting()
             elif parts[0] == "GETINFO":
                 # the correct response to an empty GETINFO is an empty OK
-- 
2.43.0


From f1750e91d80047237efb39caf92231ec6598b20c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:06 +0000
Subject: [PATCH 19/32] fix: don't publish the tally of a part of the clients
 as successful

---
 privcount/tally_server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 029f927..85b649a 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2199,7 +2199,9 @@ class CollectionPhase(object):
 
         # keep going, we want the context for debugging
         tally_was_successful = False
-        if len(self.final_counts) <= 0:
+        if self.is_error():
+            logging.warning("not all clients returned their counts, not tallying the rest")
+        elif len(self.final_counts) <= 0:
             logging.warning("no tally results to write!")
         else:
             tallied_counter = SecureCounters(self.counters_config,
-- 
2.43.0


From fcd732512e120c79540a995ade8f52e9df3e175f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:06 +0000
Subject: [PATCH 20/32] fix: process the match lists again when they are
 reordered or removed

---
 privcount/tally_server.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 85b649a..7c20ee2 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -434,6 +434,9 @@ class TallyServer(ServerFactory, PrivCountServer):
                 new_config[files_key][i] = file_path
                 if has_list_changed:
                     has_any_previous_list_changed = True
+            # lists can also be reordered or removed
+            if new_config[lists_key] != old_match_lists:
+                has_any_previous_list_changed = True
             if not has_any_previous_list_changed:
                 # skip processing the lists into new_processed_config,
                 # because they have not changed
-- 
2.43.0


From f7c0a5dd51f2e01b4e123a2684af7a9e769eb4ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:06 +0000
Subject: [PATCH 21/32] fix: take up new config keys when the config is read
 again

---
 privcount/data_collector.py | 2 +-
 privcount/share_keeper.py   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 2691364..7cb02ff 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -393,7 +393,7 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in dc_conf:
                     if k not in self.config or dc_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], dc_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), dc_conf[k]))
                         self.config[k] = dc_conf[k]
                         changed = True
                 if not changed:
diff --git a/privcount/share_keeper.py b/privcount/share_keeper.py
index 358fc3c..7cf6c5f 100644
--- a/privcount/share_keeper.py
+++ b/privcount/share_keeper.py
@@ -248,7 +248,7 @@ class ShareKeeper(ReconnectingClientFactory, PrivCountClient):
                 changed = False
                 for k in sk_conf:
                     if k not in self.config or sk_conf[k] != self.config[k]:
-                        logging.info("updated config for key {} from {} to {}".format(k, self.config[k], sk_conf[k]))
+                        logging.info("updated config for key {} from {} to {}".format(k, self.config.get(k), sk_conf[k]))
                         self.config[k] = sk_conf[k]
                         changed = True
                 if not changed:
-- 
2.43.0


From 0f91c3343508bf3f01d704b9f130d846b99cc333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:06 +0000
Subject: [PATCH 22/32] fix: summarise strings when only one character of them
 fits

---
 privcount/log.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/log.py b/privcount/log.py
index 8d31970..dae518a 100644
--- a/privcount/log.py
+++ b/privcount/log.py
@@ -111,7 +111,7 @@ def summarise_string(long_str, max_len=100, ellipsis='...'):
         end_len = content_len / 2
         assert start_len + e_len + end_len == max_len
         summary_str = (long_str[0:start_len] + ellipsis +
-                       long_str[-end_len:])
+                       long_str[orig_len-end_len:])
         assert len(summary_str) == max_len
         return summary_str
 
-- 
2.43.0


From 6f61383b9c4d34717ef12badf838c997ccb10d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 23/32] fix: check EnablePrivCount when Tor answers, not only
 while discovering

---
 privcount/protocol.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index db73fa4..7832739 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -1987,17 +1987,6 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                                  .format(transport_info(self.transport)))
                 self.quit()
                 return
-            # Check PrivCount is on
-            elif line.startswith("250 EnablePrivCount="):
-                _, _, privcount_enabled = line.partition("EnablePrivCount=")
-                if privcount_enabled != "1":
-                    logging.warning("Connection with {} failed: EnablePrivCount is {}"
-                                .format(transport_info(self.transport),
-                                        privcount_enabled))
-                    self.quit()
-                    return
-                else:
-                    logging.info("Confirmed that EnablePrivCount is 1")
             # It's a relay, and it's just told us its Nickname
             elif line.startswith("250 Nickname="):
                 _, _, nickname = line.partition("Nickname=")
@@ -2133,6 +2122,18 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
         elif self.state == 'waiting' and line.startswith("2"):
             # log ok events while we're waiting for round start
             self.handleUnexpectedLine(line)
+        # Check PrivCount is on: we ask for it when we enable events
+        elif (self.state == 'processing' and
+              line.startswith("250 EnablePrivCount=")):
+            _, _, privcount_enabled = line.partition("EnablePrivCount=")
+            if privcount_enabled != "1":
+                logging.warning("Connection with {} failed: EnablePrivCount is {}"
+                            .format(transport_info(self.transport),
+                                    privcount_enabled))
+                self.quit()
+                return
+            else:
+                logging.info("Confirmed that EnablePrivCount is 1")
         elif self.state == 'processing' and line.startswith("650 PRIVCOUNT_"):
             parts = line.split(" ")
             assert len(parts) > 1
-- 
2.43.0


From b5df081785f103f6bd08000ebb6e7d39ad45f971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 24/32] fix: the injector never stopped after its last event

---
 privcount/inject.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index b83a934..a2dcc92 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -105,8 +105,6 @@ class PrivCountDataInjector(ServerFactory):
         Depending on the protocol, closing the connection can erase all unread
         data. So we stop sending events, but delay the actual close for a
         short amount of time.
-        This function sometimes reschedules itself using deferLater: any
-        exceptions will be handled by errorCallback.
         '''
         if not self.injecting:
             logging.debug("Ignoring request to stop injecting when injection is not in progress")
@@ -124,9 +122,15 @@ class PrivCountDataInjector(ServerFactory):
             # the data collector to finish reading.
             # we don't care about cancelling here, we're stopping anyway
             stop_deferred = task.deferLater(reactor, 1.0,
-                                            self.stop_injecting)
+                                            self._stop_now)
             stop_deferred.addErrback(errorCallback)
-            return
+
+    def _stop_now(self):
+        '''
+        Close all connections, and stop the injector.
+        This function is called using deferLater: any exceptions will be
+        handled by errorCallback.
+        '''
         if self.listeners is not None:
             stopListening(self.listeners)
             self.listeners = None
-- 
2.43.0


From d1ce8339f5751b77897dc043997ed11d3d7c4212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:31 +0000
Subject: [PATCH 25/32] fix: blank lines in the event log stopped the injector

---
 privcount/inject.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/privcount/inject.py b/privcount/inject.py
index a2dcc92..5ba3fa2 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -201,6 +201,9 @@ class PrivCountDataInjector(ServerFactory):
                 return
 
             msg = line.strip()
+            # a blank line has no event
+            if len(msg) == 0:
+                continue
             this_time_start, this_time_end = self._get_event_times(msg)
 
             # make sure this event is in our 'valid' event window
-- 
2.43.0


From 73b285526a887d47040391c1f2e672798b7477fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:14 +0000
Subject: [PATCH 26/32] fix: ignore consensus flags from a control port that
 did not authenticate

---
 privcount/protocol.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index 7832739..c9771fa 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -2097,7 +2097,9 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
                 self.handleUnexpectedLine(line)
         # consensus processing: waiting or processing states
         # handle other events interspersed between these lines
-        elif line.startswith("250-ns/id/") or line.startswith('552 Unrecognized key "ns/id/'):
+        elif ((self.state == 'waiting' or self.state == 'processing') and
+              (line.startswith("250-ns/id/") or
+               line.startswith('552 Unrecognized key "ns/id/'))):
             _, _, fingerprint = line.partition('ns/id/')
             fingerprint, _, _ = fingerprint.partition('=')
             fingerprint, _, _ = fingerprint.partition('"')
@@ -2107,7 +2109,8 @@ class TorControlClientProtocol(LineOnlyReceiver, TorControlProtocol):
             self.setDiscoveredValue('set_flag_list',
                                     "",
                                     'our consensus flags')
-        elif line.startswith("250+ns/id/"):
+        elif ((self.state == 'waiting' or self.state == 'processing') and
+              line.startswith("250+ns/id/")):
             # The intro line for our consensus entry
             self.is_processing_ns = True
         elif self.is_processing_ns and line.startswith("s "):
-- 
2.43.0


From d3a7b41ff7a1b8bf79ea0bb57f0b069c82d306a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 27/32] fix: leave the traffic model of the round as it is when
 it is updated

---
 privcount/tally_server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/privcount/tally_server.py b/privcount/tally_server.py
index 7c20ee2..8471176 100644
--- a/privcount/tally_server.py
+++ b/privcount/tally_server.py
@@ -2143,8 +2143,9 @@ class CollectionPhase(object):
         '''
         if self.traffic_model_config is None: return None
 
-        # create a TrafficModel object from the original input model config
-        tmodel = TrafficModel(self.traffic_model_config)
+        # create a TrafficModel object from a copy of the original input model
+        # config, because the update modifies the model in place
+        tmodel = TrafficModel(deepcopy(self.traffic_model_config))
 
         # the traffic model class expects counts only, i.e, dict[label] = count
         tmodel_counts = {}
-- 
2.43.0


From 0889d7da0dd0159af34d0bb062c2ad25e54bb2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:13 +0000
Subject: [PATCH 28/32] fix: update the probability of the end of a stream like
 the others

---
 privcount/traffic_model.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/privcount/traffic_model.py b/privcount/traffic_model.py
index 775665a..81ce996 100644
--- a/privcount/traffic_model.py
+++ b/privcount/traffic_model.py
@@ -815,6 +815,12 @@ class HiddenMarkovModel(object):
                     lam_new = 1.0 / ((inertia * (1.0/lam)) + ((1.0-inertia) * (1.0/e_lambda[state][obs])))
 
                     self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam_new)
+                elif obs == 'F':
+                    dp = self.emit_p[state][obs][0]
+
+                    dp_new = inertia * dp + (1.0-inertia) * e_count[state][obs]
+
+                    self.emit_p[state][obs] = (dp_new,)
 
             # be extra sure our new probs sum to 1.0
             e_total = float(sum([v[0] for v in self.emit_p[state].values()]))
@@ -828,6 +834,9 @@ class HiddenMarkovModel(object):
                         (dp, mu, sigma, lam) = self.emit_p[state][obs]
                         dp_new = dp/e_total
                         self.emit_p[state][obs] = (dp_new, 0.0, 0.0, lam)
+                    elif obs == 'F':
+                        dp = self.emit_p[state][obs][0]
+                        self.emit_p[state][obs] = (dp/e_total,)
             else:
                 logging.warning("BUG: we have no positive emission probabilities in updated model for state {}."
                     .format(state))
-- 
2.43.0


From 83757a04516f5406e3faedd1ebb290da598cf421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 29/32] fix: simulated injection waits only between events, not
 before the first one

---
 privcount/inject.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index 5ba3fa2..4706748 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -219,7 +219,10 @@ class PrivCountDataInjector(ServerFactory):
             # if we need to simulate event inter-arrival times
             wait_time = 0.0
             if self.do_pause:
-                wait_time = this_time_end - self.last_time_end
+                # there is nothing to wait for before the first event, or
+                # after an event without a time
+                if self.last_time_end > 0.0:
+                    wait_time = this_time_end - self.last_time_end
                 self.last_time_end = this_time_end
 
             # ensure wait_time is sensible
-- 
2.43.0


From eba6d5827a9385d665ed61540a41796ae88ee553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:10 +0000
Subject: [PATCH 30/32] fix: skip events with missing or invalid times when
 injecting

---
 privcount/inject.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/privcount/inject.py b/privcount/inject.py
index 4706748..f046dab 100644
--- a/privcount/inject.py
+++ b/privcount/inject.py
@@ -19,7 +19,7 @@ from privcount.connection import listen, stopListening
 from privcount.data_collector import Aggregator
 from privcount.log import errorCallback, stop_reactor, summarise_string
 from privcount.protocol import TorControlServerProtocol
-from privcount.tagged_event import parse_tagged_event, get_float_value
+from privcount.tagged_event import parse_tagged_event, get_float_value, is_float_valid
 
 # We can't have the injector listen on a port by default, because it might
 # conflict with a running tor instance
@@ -204,7 +204,12 @@ class PrivCountDataInjector(ServerFactory):
             # a blank line has no event
             if len(msg) == 0:
                 continue
-            this_time_start, this_time_end = self._get_event_times(msg)
+            try:
+                this_time_start, this_time_end = self._get_event_times(msg)
+            except ValueError as e:
+                logging.warning("Invalid event times: '{}', skipping {}"
+                                .format(e, msg))
+                continue
 
             # make sure this event is in our 'valid' event window
             if this_time_end < self.prune_before or this_time_end > self.prune_after:
@@ -255,6 +260,7 @@ class PrivCountDataInjector(ServerFactory):
     def _get_event_times(self, msg):
         '''
         Return a tuple (start_time, end_time) for the event in msg.
+        Raises ValueError if the event has no valid times.
         '''
         parts = msg.split()
         if len(parts) > 0:
@@ -287,6 +293,14 @@ class PrivCountDataInjector(ServerFactory):
             if len(items) > 0 and len(fields) == 0:
                 logging.warning("Malformed tagged event in: '{}' {}"
                                 .format(msg, event_desc))
+            elif (not is_float_valid(PrivCountDataInjector.START_TIMESTAMP_TAG,
+                                     fields, event_desc,
+                                     is_mandatory=False) or
+                  not is_float_valid(PrivCountDataInjector.END_TIMESTAMP_TAG,
+                                     fields, event_desc,
+                                     is_mandatory=True)):
+                raise ValueError("missing or invalid times {}"
+                                 .format(event_desc))
             else:
                 # PRIVCOUNT_CIRCUIT_CLOSE and PRIVCOUNT_CONNECTION_CLOSE have
                 # start and end times
-- 
2.43.0


From eb06f85a337033010758ebd9a9704fc95066210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:49 +0000
Subject: [PATCH 31/32] fix: only create the handshake secret when asked to

handshake_secret_load ignored its create argument, so a client without the
secret file silently made up a secret of its own when a server connected.
---
 privcount/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/privcount/protocol.py b/privcount/protocol.py
index c9771fa..035b0ef 100644
--- a/privcount/protocol.py
+++ b/privcount/protocol.py
@@ -415,7 +415,7 @@ class PrivCountProtocol(LineOnlyReceiver):
         # violation, but it yields better security properties, as only the
         # protocol layer ever knows the secret key (and it is discarded after
         # it is used to generate or verify the HMACs)
-        if not path.exists(secret_handshake_path):
+        if create and not path.exists(secret_handshake_path):
             secret_handshake = PrivCountProtocol.handshake_secret_generate()
             with open(secret_handshake_path, 'w') as fin:
                 fin.write(secret_handshake)
-- 
2.43.0


From aa7cf8795542f86f061512225ce62084f902c03d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:47 +0000
Subject: [PATCH 32/32] fix: a deferred start only starts its own collection

The call that starts an aggregator after the deferral was kept when the
collection was stopped before it began. If another collection was started
meanwhile, that call started its aggregator before its own deferral was over.
---
 privcount/data_collector.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/privcount/data_collector.py b/privcount/data_collector.py
index 7cb02ff..94843e0 100644
--- a/privcount/data_collector.py
+++ b/privcount/data_collector.py
@@ -273,7 +273,8 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
         # sync the time that we start listening for Tor events
         self.is_aggregator_pending = True
         aggregator_deferred = task.deferLater(reactor, defer_time,
-                                              self._start_aggregator_deferred)
+                                              self._start_aggregator_deferred,
+                                              self.aggregator)
         aggregator_deferred.addErrback(errorCallback)
         # return the generated shares now
         shares = self.aggregator.get_shares()
@@ -292,12 +293,14 @@ class DataCollector(ReconnectingClientFactory, PrivCountClient):
                      .format(len(shares), len(dc_counters), count_bins(dc_counters)))
         return shares
 
-    def _start_aggregator_deferred(self):
+    def _start_aggregator_deferred(self, aggregator):
         '''
+        Start aggregator, unless its collection was stopped while it was
+        waiting to start.
         This function is called using deferLater, so any exceptions will be
         handled by errorCallback.
         '''
-        if self.is_aggregator_pending:
+        if self.is_aggregator_pending and self.aggregator is aggregator:
             self.is_aggregator_pending = False
             self.aggregator.start()
             # schedule a once-off check that the aggregator has connected
-- 
2.43.0

