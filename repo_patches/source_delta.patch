From 7b54c0d62027ee42c8505674f75cee08c7742595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:39 +0000
Subject: [PATCH 01/24] fix: answer a hello which attempts to change client id

The handler referred to a non-existent constant, which caused the server
to terminate.
---
 paf/server.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/paf/server.py b/paf/server.py
index 0f85993..95b4d55 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -320,7 +320,7 @@ class Connection:
         elif self.client_id != client_id:
             self.warning("Attempt to change client id denied.",
                          LogCategory.SECURITY)
-            yield ta.fail(fail_reason=proto.FAIL_PERMISSION_DENIED)
+            yield ta.fail(fail_reason=proto.FAIL_REASON_PERMISSION_DENIED)
             return
         elif self.handshaked:
             self.debug("Received hello from client with handshake "
-- 
2.43.0


From 42c2c82a54868273e5aa643a5e30d38b53e805ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 02/24] fix: reject wire messages with ill-typed fields as
 protocol errors

Anything but a JSON object, string-typed fields holding something else
than a string, a negative infinite number and JSON nested too deeply all
raised other exceptions than ProtocolError out of Message.parse(), which
terminated the server process.
---
 paf/proto.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/paf/proto.py b/paf/proto.py
index eca5883..c7148d0 100644
--- a/paf/proto.py
+++ b/paf/proto.py
@@ -56,7 +56,14 @@ class Field:
 
 
 class StringField(Field):
-    pass
+    def pull(self, in_msg, opt=False):
+        value = Field.pull(self, in_msg, opt=opt)
+        if value is None:
+            return None
+        if not isinstance(value, str):
+            raise ProtocolError("Message field %s is not a string" %
+                                self.name)
+        return value
 
 
 NON_NEGATIVE_INT_MAX = (1 << 63) - 1
@@ -90,7 +97,7 @@ class NonNegativeNumberField(Field):
                                 self.name)
         if value < 0:
             raise ProtocolError("Message field %s has a negative "
-                                "value %d" % (self.name, value))
+                                "value %s" % (self.name, value))
         return value
 
 
@@ -367,6 +374,9 @@ class Message:
         try:
             in_msg = json.loads(in_wire_msg.decode('utf-8'))
 
+            if not isinstance(in_msg, dict):
+                raise ProtocolError("Message is not a JSON object")
+
             cmd = FIELD_TA_CMD.pull(in_msg)
             ta_id = FIELD_TA_ID.pull(in_msg)
             msg_type = FIELD_MSG_TYPE.pull(in_msg)
@@ -392,11 +402,11 @@ class Message:
 
             if len(in_msg) > 0:
                 raise ProtocolError("Message contains unknown field(s): %s" %
-                                    in_msg)
+                                    ", ".join(in_msg))
 
             return Message(ta_type, ta_id, msg_type, args, optargs)
 
-        except ValueError:
+        except (ValueError, RecursionError):
             raise ProtocolError("Error JSON decoding incoming message")
 
     def __init__(self, ta_type, ta_id, msg_type, args, optargs):
-- 
2.43.0


From 7794c46edce98cedd32912f09bd738e4b5c72d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 03/24] fix: treat misdirected inform messages as protocol
 errors

An inform message in an open transaction of a type without informs, or
with a command other than that of the open transaction, made the server
process terminate.
---
 paf/server.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/paf/server.py b/paf/server.py
index 95b4d55..63c7973 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -46,6 +46,11 @@ class Transaction:
             raise ProtocolError("Message received in transaction %d is not "
                                 "of a client-generated type" % self.ta_id)
 
+        if in_msg.cmd() != self.ta_type.cmd:
+            raise ProtocolError("Received \"%s\" message in \"%s\" "
+                                "transaction %d" %
+                                (in_msg.cmd(), self.ta_type.cmd, self.ta_id))
+
         if in_msg.is_request():
             self.request(in_msg)
         else:
@@ -66,6 +71,10 @@ class Transaction:
             raise ProtocolError("Inform message precedes request in "
                                 "transaction %d" % self.ta_id)
 
+        if not self.is_two_way():
+            raise ProtocolError("Inform message received in transaction %d, "
+                                "which is not two-way" % self.ta_id)
+
         assert self.state == TransactionState.ACCEPTED
 
     def response(self, msg_type, fields, opt_fields, *args, **optargs):
-- 
2.43.0


From 9bf5a53aca891d17e3c3fbd5cb640254e121a9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:08 +0000
Subject: [PATCH 04/24] fix: survive unsolicited track replies and unknown
 track types

The ProtocolError was constructed with too many arguments, and the
resulting TypeError terminated the server process.
---
 paf/server.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 63c7973..3cb9d80 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -430,16 +430,15 @@ class Connection:
         elif track_type == proto.TRACK_TYPE_REPLY:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
-                                    "track transaction %d", track_type,
-                                    ta.ta_id)
+                                    "track transaction %d" % ta.ta_id)
             self.track_latency = time.time() - self.track_query_ts
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
         else:
             raise ProtocolError("Received unknown track type \"%s\" in "
-                                "track transaction %d", track_type,
-                                ta.ta_id)
+                                "track transaction %d" %
+                                (track_type, ta.ta_id))
 
     def subscribe_request(self, ta, sub_id, filter=None):
         try:
-- 
2.43.0


From c76a1b11b8a3ebd4e2af43116367c3a96d88d5e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:53 +0000
Subject: [PATCH 05/24] fix: match substring filters without regular
 expressions

A substring filter applied to an integer property value raised a
TypeError, terminating the server process. In addition, the regular
expression never matched across newlines, allowed for a trailing
newline, and took a time exponential in the number of wildcards to
conclude certain values did not match, stalling the server.
---
 paf/filter.py | 38 ++++++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 14 deletions(-)

diff --git a/paf/filter.py b/paf/filter.py
index 22ae626..c2a8930 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -1,8 +1,6 @@
 # SPDX-License-Identifier: BSD-3-Clause
 # Copyright(c) 2020 Ericsson AB
 
-import re
-
 BEGIN_EXPR = '('
 END_EXPR = ')'
 ANY = '*'
@@ -311,27 +309,39 @@ class Substring(Filter):
         self.intermediate = intermediate
         self.final = final
 
-        pattern = "^"
-        if initial is not None:
-            pattern += "%s.*" % re.escape(initial)
-        else:
-            pattern += ".*"
+    def compare(self, value):
+        # Substring expressions apply to string values only.
+        if not isinstance(value, str):
+            return False
 
-        for im in intermediate:
-            pattern += "%s.*" % re.escape(im)
+        start = 0
+        end = len(value)
 
-        if final is not None:
-            pattern += re.escape(self.final)
+        if self.initial is not None:
+            if not value.startswith(self.initial):
+                return False
+            start += len(self.initial)
 
-        pattern += "$"
+        if self.final is not None:
+            if not value.endswith(self.final):
+                return False
+            end -= len(self.final)
 
-        self.substring_re = re.compile(pattern)
+        # Always picking the left-most occurrence avoids any need for
+        # backtracking.
+        for im in self.intermediate:
+            pos = value.find(im, start, end)
+            if pos < 0:
+                return False
+            start = pos + len(im)
+
+        return start <= end
 
     def match(self, service):
         values = service.get(self.key)
         if values is not None:
             for value in values:
-                if self.substring_re.search(value) is not None:
+                if self.compare(value):
                     return True
         return False
 
-- 
2.43.0


From b379d8b92dc97294f0ecfa6a0894e6623c96cbb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 06/24] fix: refuse too deeply nested filters as malformed

The RecursionError terminated the server process.
---
 paf/filter.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/filter.py b/paf/filter.py
index c2a8930..8bcb317 100644
--- a/paf/filter.py
+++ b/paf/filter.py
@@ -216,7 +216,10 @@ def parse(filter_s):
 
     state.expect(BEGIN_EXPR)
 
-    filter = _parse(state)
+    try:
+        filter = _parse(state)
+    except RecursionError:
+        raise ParseError(state, "Too deeply nested expression")
 
     state.expect(END_EXPR)
 
-- 
2.43.0


From 92130c2676cde50175144f35c060a4ad6823eb87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 07/24] fix: orphan a reclaimed service when its owner
 disconnects again

A service reclaimed by its returning owner remained tied to the owner's
old connection. As a result, it wasn't orphaned (and thus never removed)
when the new connection went away, and didn't affect its idle time.
---
 paf/sd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/paf/sd.py b/paf/sd.py
index 160b393..ea1495c 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -595,11 +595,14 @@ class Client:
                         change.client_id = self.client_id
                 elif service.is_orphan():
                     # previous owner is back
+                    self.capture_service(service)
+
                     with service.modify() as change:
                         change.orphan_since = None
 
             elif generation > service.generation():
-                if self.client_id != service.client_id():
+                if self.client_id != service.client_id() or \
+                   service.is_orphan():
                     self.capture_service(service)
 
                 with service.modify() as change:
-- 
2.43.0


From 785d627b4150534d5472b8a2b002f36d117e3632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 08/24] fix: drop disconnected client when its last orphan is
 taken over

The client record, including its user id, stayed around for as long as
the server process did, which also prevented other users from ever using
the client id.
---
 paf/sd.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/paf/sd.py b/paf/sd.py
index ea1495c..0025097 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -691,6 +691,12 @@ class Client:
         victim_connection.remove_service(service)
         self.active_connection.add_service(service)
 
+        if victim_connection.is_stale():
+            victim_client.remove_connection(victim_connection)
+
+        if victim_client.is_stale():
+            self.db.remove_client(victim_client)
+
     def remove_service(self, service):
         connection = self.get_service_connection(service)
         connection.remove_service(service)
-- 
2.43.0


From 47ae168a9cd65bbb995f22f77506feaeca028a84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 09/24] fix: never report negative idle times and latencies

In case the system clock was set back, the clients command response
carried negative values, which the protocol doesn't allow and which
makes the client library consider the connection broken.
---
 paf/server.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/paf/server.py b/paf/server.py
index 3cb9d80..870ff5f 100644
--- a/paf/server.py
+++ b/paf/server.py
@@ -431,7 +431,7 @@ class Connection:
             if self.track_query_ts is None:
                 raise ProtocolError("Received unsolicited track reply in "
                                     "track transaction %d" % ta.ta_id)
-            self.track_latency = time.time() - self.track_query_ts
+            self.track_latency = max(0, time.time() - self.track_query_ts)
             self.track_query_ts = None
             self.debug("Received to track query reply (after %.1f ms)." %
                        (1e3 * self.track_latency), LogCategory.CORE)
@@ -604,7 +604,8 @@ class Connection:
         extended = self.proto_version >= 3
 
         for conn in self.server.client_connections.values():
-            idle_time = now - self.sd.client_last_seen(conn.client_id)
+            idle_time = \
+                max(0, now - self.sd.client_last_seen(conn.client_id))
 
             optargs = {}
             if conn.is_tracked():
-- 
2.43.0


From c017630cc1c41b1b0a3db515c50cb0639b1f5c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 10/24] fix: don't keep resource records for users denied their
 first resource

A record per user id stayed for as long as the server process did.
---
 paf/sd.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/paf/sd.py b/paf/sd.py
index 0025097..8ef9405 100644
--- a/paf/sd.py
+++ b/paf/sd.py
@@ -117,10 +117,11 @@ class ResourceManager:
 
     def allocate(self, user_id, resource_type):
         self.check_total(resource_type)
-        if user_id not in self.consumers:
-            self.consumers[user_id] = \
-                Consumer(user_id, self.max_user_resources)
-        self.consumers[user_id].allocate(resource_type)
+        consumer = self.consumers.get(user_id)
+        if consumer is None:
+            consumer = Consumer(user_id, self.max_user_resources)
+        consumer.allocate(resource_type)
+        self.consumers[user_id] = consumer
 
     def deallocate(self, user_id, resource_type):
         consumer = self.consumers[user_id]
-- 
2.43.0


From d959d545a666f65a7b52aeb52fd16441df6e6a8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 11/24] fix: raise TransactionError when a hello or ping call
 fails

A failed hello or ping raised a TypeError rather than the
TransactionError, as did any transaction failed without a reason.
---
 paf/client.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/paf/client.py b/paf/client.py
index 5948011..09a4557 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -35,8 +35,7 @@ class TransactionError(Error):
         if reason is not None:
             message = "Protocol transaction failed: '%s'." % reason
         else:
-            message = "Protocol transaction failed for unknown reason." % \
-                reason
+            message = "Protocol transaction failed for unknown reason."
         Error.__init__(self, message)
 
 
@@ -155,10 +154,10 @@ class LatencyCall(Call):
         self.start = time.time()
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.latency = time.time() - self.start
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
@@ -187,10 +186,10 @@ class CompleteCall(Call):
     def __init__(self, conn):
         Call.__init__(self, conn)
 
-    def __call__(self, ta_id, event, *args):
+    def __call__(self, ta_id, event, *args, **optargs):
         if event == EventType.COMPLETE:
             self.complete = args
-        Call.__call__(self, ta_id, event, *args)
+        Call.__call__(self, ta_id, event, *args, **optargs)
 
     def get(self):
         Call.get(self)
-- 
2.43.0


From fddbe3266d8d794dd01a9cf58b32338dfe4e5b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:52 +0000
Subject: [PATCH 12/24] fix: client: survive synchronous calls made from
 callbacks

A synchronous call made by a response callback processes further messages.
If these terminated the transaction whose callback was running, the outer
receive failed with a KeyError.
---
 paf/client.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 09a4557..10bde93 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -472,7 +472,9 @@ class Client:
                                     "transaction %d" % in_msg.ta_id)
             transaction.consume_message(in_msg)
             if transaction.state == TransactionState.TERMINATED:
-                del self.transactions[in_msg.ta_id]
+                # the callback may have processed further messages, including
+                # the one that terminated this transaction
+                self.transactions.pop(in_msg.ta_id, None)
             return True
         except xcm.error as e:
             if e.errno == errno.EAGAIN:
-- 
2.43.0


From 6552664d7c1b7834675d02e4e31eae62ec43cd46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 13/24] fix: don't fire timeouts of sources removed by an
 earlier handler

---
 paf/eventloop.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 2bcd5d4..285bdd5 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -181,13 +181,15 @@ class EventLoop:
     def fire_timeouts(self):
         if len(self.source_timeout) > 0:
             now = time.time()
-            active_handlers = []
-            for source, timeout in self.source_timeout.items():
-                if now >= timeout:
+            expired = [source for source, timeout
+                       in self.source_timeout.items() if now >= timeout]
+            for source in expired:
+                # An earlier handler may have removed the source, or
+                # changed its timeout.
+                timeout = self.source_timeout.get(source)
+                if timeout is not None and now >= timeout:
                     handler = self.source_handler[source]
-                    active_handlers.append(handler)
-            for handler in active_handlers:
-                handler()
+                    handler()
 
     def fire_actives(self):
         while len(self.source_active) > 0:
-- 
2.43.0


From 7be133833a738cd210bbf866397226608a3cc2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 14/24] fix: don't let expired timeouts starve file descriptors

---
 paf/eventloop.py | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 285bdd5..24c73b9 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -233,18 +233,16 @@ class EventLoop:
 
             timeout = self.next_relative_timeout()
 
-            if timeout == 0:
-                self.fire_timeouts()
-                if self._stop:
-                    break
-            else:
-                fds = self.epoll.poll(timeout=timeout)
-                if len(fds) > 0:
-                    self.handle_fds(fds)
-                else:
-                    self.fire_timeouts()
-                if self._stop:
-                    break
+            # The fds are polled even if a timeout has already
+            # expired, to prevent timeouts from starving them.
+            fds = self.epoll.poll(timeout=timeout)
+            self.handle_fds(fds)
+            if self._stop:
+                break
+
+            self.fire_timeouts()
+            if self._stop:
+                break
 
     def stop(self):
         self._stop = True
-- 
2.43.0


From 044f7b3ed9b0ac49f4a928b9e4b792f17b69db67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:08 +0000
Subject: [PATCH 15/24] fix: update the next timeout when the first of equal
 timers is removed

---
 paf/timer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/timer.py b/paf/timer.py
index bbb4696..50e62af 100644
--- a/paf/timer.py
+++ b/paf/timer.py
@@ -29,7 +29,8 @@ class TimerManager:
         return new_timer
 
     def remove(self, timer):
-        if timer is self.deque[0]:
+        # Compare by value, like deque.remove().
+        if timer == self.deque[0]:
             self.deque.popleft()
             self.next_timeout_changed()
         else:
-- 
2.43.0


From 3e6b54e4a9574a3323e828797c301088159a63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 16/24] fix: pafc: report quoting errors in track and services
 commands

---
 app/pafc | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/app/pafc b/app/pafc
index 5da2438..cd040c2 100755
--- a/app/pafc
+++ b/app/pafc
@@ -512,7 +512,12 @@ class PafCli(cmd.Cmd):
 
         This command is only available on protocol version 3 connections.
 """
-        args = shlex.split(line)
+        try:
+            args = shlex.split(line)
+        except ValueError as e:
+            print("%s." % e)
+            return
+
         if len(args) == 0:
             self.worker.cmd_track()
         elif len(args) == 1:
@@ -530,12 +535,15 @@ class PafCli(cmd.Cmd):
     def do_services(self, line):
         """services [<filter-expression>]
         List all services (optionally matching the filter expression)."""
-        args = shlex.split(line)
-        if len(args) == 1:
-            filter = args[0]
-        else:
-            filter = None
-        self.worker.cmd_services(filter=filter)
+        try:
+            args = shlex.split(line)
+            if len(args) == 1:
+                filter = args[0]
+            else:
+                filter = None
+            self.worker.cmd_services(filter=filter)
+        except ValueError as e:
+            print("%s." % e)
 
     def do_clients(self, line):
         """clients
-- 
2.43.0


From 7539f89e2f72b19ece7949eb6f7e3681a5b4f814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:36 +0000
Subject: [PATCH 17/24] fix: pafc: survive track transactions which cannot be
 opened

---
 app/pafc | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/app/pafc b/app/pafc
index cd040c2..a8f9bdd 100755
--- a/app/pafc
+++ b/app/pafc
@@ -234,18 +234,24 @@ class Worker(Thread):
         self.dispatch_fun(self._cmd_version)
 
     def _cmd_track(self):
-        if self.tracker is None:
-            self.tracker = Tracker(self.conn)
+        if self.tracker is not None:
+            self._fail("Connection already has a track transaction.")
+            return
 
-            client.wait(self.conn,
-                        lambda: self.tracker.accepted or self.tracker.failed)
+        if self.conn.proto_version < 3:
+            self._fail("Tracking requires protocol version 3.")
+            return
 
-            if self.tracker.accepted:
-                self._ok()
-            else:
-                self._fail(self.tracker.fail_reason)
+        self.tracker = Tracker(self.conn)
+
+        client.wait(self.conn,
+                    lambda: self.tracker.accepted or self.tracker.failed)
+
+        if self.tracker.accepted:
+            self._ok()
         else:
-            self._fail("Connection already has a track transaction.")
+            self._fail(self.tracker.fail_reason)
+            self.tracker = None
 
     def cmd_track(self):
         self.dispatch_fun(self._cmd_track)
-- 
2.43.0


From 14104bc50691f8398deefff20df8068a44dc5819 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:42 +0000
Subject: [PATCH 18/24] fix: pafc: refuse out-of-range ids, generations and
 TTLs

---
 app/pafc | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/app/pafc b/app/pafc
index a8f9bdd..f22a262 100755
--- a/app/pafc
+++ b/app/pafc
@@ -19,6 +19,8 @@ import time
 import paf.client as client
 import paf.props as props
 
+INT64_MAX = 0x7fffffffffffffff
+
 
 def usage(name):
     print("%s [-i <client_id>] [-p <version>] <addr>" % name)
@@ -352,7 +354,9 @@ class Worker(Thread):
             if service_id is None:
                 service_id = self.conn.service_id()
                 print("Service Id %x." % service_id)
-            if self._check_service_id(service_id):
+            if self._check_service_id(service_id) and \
+               self._check_int("Generation", generation) and \
+               self._check_int("TTL", ttl):
                 self.conn.publish(service_id, generation, service_props, ttl)
                 self._ok()
         except client.Error as e:
@@ -416,17 +420,17 @@ class Worker(Thread):
     def cmd_subscriptions(self):
         self.dispatch_fun(self._cmd_subscriptions)
 
-    def _check_id(self, id_type, the_id):
-        if the_id < 0:
-            print("%s id must be a non-negative integer." % id_type)
+    def _check_int(self, name, value):
+        if value < 0 or value > INT64_MAX:
+            print("%s must be a non-negative 63-bit integer." % name)
             return False
         return True
 
     def _check_service_id(self, service_id):
-        return self._check_id("Service", service_id)
+        return self._check_int("Service id", service_id)
 
     def _check_subscription_id(self, service_id):
-        return self._check_id("Subscription", service_id)
+        return self._check_int("Subscription id", service_id)
 
     def _ok(self):
         print("OK.")
-- 
2.43.0


From 41d2bcb511674254a979250686763426ca557d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:41 +0000
Subject: [PATCH 19/24] fix: pafc: accept empty property values, and values
 consisting of a bar

---
 app/pafc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/app/pafc b/app/pafc
index f22a262..3f502dd 100755
--- a/app/pafc
+++ b/app/pafc
@@ -455,7 +455,7 @@ def parse_props(args):
     service_props = collections.defaultdict(set)
     for i in range(0, len(args), 2):
         value = args[i+1]
-        if value[0] == '|' and value[-1] == '|':
+        if len(value) > 1 and value[0] == '|' and value[-1] == '|':
             value = value[1:-1]
         elif value.strip() == value:
             try:
-- 
2.43.0


From 6e9b953e14db4046c58bd2ecfbf65a1b01af01c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:55 +0000
Subject: [PATCH 20/24] fix: do not lose a termination signal that arrives
 during start-up

The signal handlers do nothing, and were installed before the wakeup fd,
so a signal in between had no effect at all.
---
 paf/eventloop.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/paf/eventloop.py b/paf/eventloop.py
index 24c73b9..3f206f5 100644
--- a/paf/eventloop.py
+++ b/paf/eventloop.py
@@ -99,13 +99,15 @@ class EventLoop:
         self.init_signal_wakeup_fd()
 
     def init_signal_wakeup_fd(self):
-        for signo in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT):
-            signal.signal(signo, lambda signo, frame: None)
         self.s_rfd, self.s_wfd = os.pipe()
         set_nonblocking(self.s_rfd)
         set_nonblocking(self.s_wfd)
         signal.set_wakeup_fd(self.s_wfd)
         self.epoll.register(self.s_rfd, select.EPOLLIN)
+        # The handlers do nothing, so a signal which arrives before the
+        # wakeup fd is in place would be lost.
+        for signo in (signal.SIGTERM, signal.SIGHUP, signal.SIGINT):
+            signal.signal(signo, lambda signo, frame: None)
 
     def add(self, source, handler):
         self.source_handler[source] = handler
-- 
2.43.0


From 647497be34927257f0900e718cd80e97b1d7f362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:28 +0000
Subject: [PATCH 21/24] fix: do not hand a second fail response to the callback

---
 paf/client.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/paf/client.py b/paf/client.py
index 10bde93..b6e4b98 100644
--- a/paf/client.py
+++ b/paf/client.py
@@ -109,7 +109,8 @@ class Transaction:
                 proto.InteractionType.MULTI_RESPONSE))):
             event = EventType.COMPLETE
             self.state = TransactionState.TERMINATED
-        elif msg_type == proto.MSG_TYPE_FAIL:
+        elif (msg_type == proto.MSG_TYPE_FAIL and
+              self.state != TransactionState.TERMINATED):
             event = EventType.FAIL
             self.state = TransactionState.TERMINATED
         else:
-- 
2.43.0


From 3b744c85d9df4a2f8c5acbf26ee10b1e2504d0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:10 +0000
Subject: [PATCH 22/24] fix: let the option -c 0 remove the limit on clients

Any use of it terminated the server at start-up with a TypeError.
---
 paf/conf.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/paf/conf.py b/paf/conf.py
index dcbc308..50e1504 100644
--- a/paf/conf.py
+++ b/paf/conf.py
@@ -136,6 +136,12 @@ class ResourcesClassConf:
     def set_limit(self, name, value):
         if not isinstance(value, int) or value < 0:
             raise FormatError("resource limit", value)
+        self.assign_limit(name, value)
+
+    def clear_limit(self, name):
+        self.assign_limit(name, None)
+
+    def assign_limit(self, name, value):
         if name == "clients":
             self.resources[sd.ResourceType.CLIENT] = value
         elif name == "services":
@@ -145,9 +151,6 @@ class ResourcesClassConf:
         else:
             raise FormatError("resource type", name)
 
-    def clear_limit(self, name):
-        self.set_limit(self, name, None)
-
     def get_client_limit(self):
         return self.resources[sd.ResourceType.CLIENT]
 
-- 
2.43.0


From 6b6582b179bc920538329defef279627db80cd85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:13 +0000
Subject: [PATCH 23/24] fix: let pafc print strings its terminal cannot
 represent

---
 app/pafc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/app/pafc b/app/pafc
index 3f502dd..fa78822 100755
--- a/app/pafc
+++ b/app/pafc
@@ -670,6 +670,10 @@ def list_domains(args):
 
 
 if __name__ == '__main__':
+    # Strings from the server need not be representable in the
+    # encoding of the terminal.
+    sys.stdout.reconfigure(errors='backslashreplace')
+
     try:
         client_id = None
         list_addrs = False
-- 
2.43.0


From 83e0b78408bd5ea723941e0bdc17885afdc059d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:33 +0000
Subject: [PATCH 24/24] fix: let pafc accept input its terminal encoding cannot
 decode

---
 app/pafc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/app/pafc b/app/pafc
index fa78822..6eefcbb 100755
--- a/app/pafc
+++ b/app/pafc
@@ -673,6 +673,8 @@ if __name__ == '__main__':
     # Strings from the server need not be representable in the
     # encoding of the terminal.
     sys.stdout.reconfigure(errors='backslashreplace')
+    # The user may enter bytes which are invalid in that encoding.
+    sys.stdin.reconfigure(errors='surrogateescape')
 
     try:
         client_id = None
-- 
2.43.0

