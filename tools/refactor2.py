#!/usr/bin/env python3
"""refactor2.py: another rewrite of the copy of /repo in the current directory
that does not change its behaviour (see refactor.py)."""
import os
import sys
if os.path.realpath('.') == '/repo':
    sys.exit('run this in a scratch copy')


def rep(f, *prs):
    s = open(f).read()
    for a, b in prs:
        assert s.count(a) >= 1, (f, a)
        s = s.replace(a, b, 1)
    open(f, 'w').write(s)


rep('paf/eventloop.py',
    ("import select\nimport time\n",
     "import select\nfrom time import time as now\n"),
    ("time.time()", "now()"), ("now = time.time()", "t = now()"),
    ("if now >= timeout]", "if t >= timeout]"),
    ("timeout is not None and now >= timeout", "timeout is not None and "
     "t >= timeout"),
    ("""        timeouts = sorted(self.source_timeout.values())
        if len(timeouts) == 0:
            return -1
        else:
            left = timeouts[0] -""", """        if not self.source_timeout:
            return -1
        else:
            left = min(self.source_timeout.values()) -"""),
    ("""            self.fire_actives()
            if self._stop:
                break

            timeout =""", """            self.fire_actives()
            if self._stop:
                return

            timeout ="""),
    ("""        if source in self.source_timeout:
            del self.source_timeout[source]
""", """        self.source_timeout.pop(source, None)
"""),
    ("""        if source in self.source_active:
            self.source_active.remove(source)
""", """        self.source_active.discard(source)
"""))

# a heap whose removed entries are dropped when they come up
open('paf/timer.py', 'w').write('''import heapq
import time


class Timer:
    def __init__(self, handler, expiration_time, seq):
        self.handler = handler
        self.expiration_time = expiration_time
        self.seq = seq

    def __lt__(self, other):
        return (self.expiration_time, self.seq) < \\
            (other.expiration_time, other.seq)


class TimerManager:
    def __init__(self, next_timeout_cb=None):
        self.next_timeout_cb = next_timeout_cb
        self.heap = []
        self.seq = 0
        self.live = 0

    def empty(self):
        return self.live == 0

    def add(self, handler, expiration_time, relative=False):
        if relative:
            expiration_time += time.time()
        before = self.next_timeout()
        timer = Timer(handler, expiration_time, self.seq)
        self.seq += 1
        self.live += 1
        heapq.heappush(self.heap, timer)
        if before is None or expiration_time < before:
            self.next_timeout_changed()
        return timer

    def remove(self, timer):
        if timer.handler is None:
            raise ValueError("no such timer")
        before = self.next_timeout()
        timer.handler = None
        self.live -= 1
        self._trim()
        if self.next_timeout() != before:
            self.next_timeout_changed()

    def _trim(self):
        while self.heap and self.heap[0].handler is None:
            heapq.heappop(self.heap)
        if len(self.heap) > 2 * self.live + 10:
            self.heap = [t for t in self.heap if t.handler is not None]
            heapq.heapify(self.heap)

    def next_timeout(self):
        if self.empty():
            return None
        return self.heap[0].expiration_time

    def process(self):
        now = time.time()
        before = self.next_timeout()
        while self.live > 0 and self.heap[0].expiration_time <= now:
            timer = heapq.heappop(self.heap)
            handler = timer.handler
            timer.handler = None
            self.live -= 1
            self._trim()
            handler()
            self._trim()
        if self.next_timeout() != before:
            self.next_timeout_changed()

    def next_timeout_changed(self):
        if self.next_timeout_cb is not None:
            self.next_timeout_cb()

    def __iter__(self):
        return iter(sorted(t for t in self.heap if t.handler is not None))
''')

rep('paf/server.py',
    ("""        condition = 0
        if self.sendable():
            condition |= xcm.SO_SENDABLE
        if self.receivable():
            condition |= xcm.SO_RECEIVABLE
        self.conn_source.update(condition)
""", """        self.conn_source.update(
            (xcm.SO_SENDABLE if self.sendable() else 0) |
            (xcm.SO_RECEIVABLE if self.receivable() else 0))
"""),
    ("""        try:
            in_wire_msg = self.conn_sock.receive()
            if len(in_wire_msg) == 0:
                raise xcm.error(0, "Connection closed")
            self.debug("Received message: %s" % in_wire_msg,
                       LogCategory.PROTOCOL)
            self.process(in_wire_msg)
        except xcm.error as e:
            if e.errno != errno.EAGAIN:
                raise
""", """        try:
            in_wire_msg = self.conn_sock.receive()
        except xcm.error as e:
            if e.errno == errno.EAGAIN:
                return
            raise
        if not in_wire_msg:
            raise xcm.error(0, "Connection closed")
        self.process(in_wire_msg)
"""),
    ("""        ta = self.tas.get(in_msg.ta_id)

        if ta is None:
            ta = Transaction(in_msg.ta_id, in_msg.ta_type, self.proto_version,
                             self.debug, self.ta_terminated)
            self.tas[ta.ta_id] = ta

        ta.message(in_msg)
""", """        try:
            ta = self.tas[in_msg.ta_id]
        except KeyError:
            ta = Transaction(in_msg.ta_id, in_msg.ta_type, self.proto_version,
                             self.debug, self.ta_terminated)
            self.tas[in_msg.ta_id] = ta

        ta.message(in_msg)
"""),
    ("""            for response in self.invoke_handler(ta, in_msg):
                self.respond(response)
""", """            self.out_wire_msgs.extend(self.invoke_handler(ta, in_msg))
            self.update_source()
"""),
    ("""        for conn in self.server.client_connections.values():
            idle_time = \\
                max(0, now -""", """        conns = self.server.client_connections
        for client_id in sorted(conns):
            conn = conns[client_id]
            idle_time = \\
                max(0, now -"""),
    ("""            sub_ta = self.sub_tas[sub_id]
            del self.sub_tas[sub_id]
            yield sub_ta.complete()
            yield ta.complete()
""", """            sub_ta = self.sub_tas.pop(sub_id)
            for done in (sub_ta, ta):
                yield done.complete()
"""),
    ("""        self.event_loop.remove(self.conn_source)
        self.conn_sock.close()
        self.conn_sock = None
        self.conn_source = None
        self.term_cb(self)
""", """        self.term_cb(self)
        self.event_loop.remove(self.conn_source)
        self.conn_source = None
        self.conn_sock.close()
        self.conn_sock = None
"""),
    ("""        if match_type == sd.MatchType.DISAPPEARED:
            self.respond(ta.notify(proto_match_type, service.service_id))
        else:
            self.respond(ta.notify(proto_match_type, service.service_id,
                                   generation=service.generation(),
                                   service_props=service.props(),
                                   ttl=service.ttl(),
                                   client_id=service.client_id(),
                                   orphan_since=service.orphan_since()))
""", """        optargs = {}
        if match_type != sd.MatchType.DISAPPEARED:
            for name in ('generation', 'ttl', 'client_id', 'orphan_since'):
                optargs[name] = getattr(service, name)()
            optargs['service_props'] = service_props
        self.respond(ta.notify(proto_match_type, service.service_id,
                               **optargs))
"""),
    ("""        if conn.handshaked:
            del self.client_connections[conn.client_id]
        else:
            self.clientless_connections.remove(conn)
""", """        self.clientless_connections.discard(conn)
        if self.client_connections.get(conn.client_id) is conn:
            del self.client_connections[conn.client_id]
"""),
    ("""        conns = [conn for conn in chain(self.clientless_connections,
                                        self.client_connections.values())]

        for conn in conns:
            conn.terminate()
""", """        while self.clientless_connections:
            next(iter(self.clientless_connections)).terminate()
        for conn in list(self.client_connections.values())[::-1]:
            conn.terminate()
"""),
)
rep('paf/sd.py',
    ("""        self.user_id = user_id
        self.max_resources = max_resources
        self.used_resources = resources(0, 0, 0)
""", """        self.user_id = user_id
        self.max_resources = max_resources
        self.used_resources = dict.fromkeys(ResourceType, 0)
"""),
    ("""        for t in ResourceType:
            if self.used_resources[t] > 0:
                return True
        return False
""", """        return any(self.used_resources.values())
"""),
    ("""        service = self.db.get_service(service_id)
        if service is None:
            raise NotFoundError("service", service_id)

        service.check_access(self.user_id)

        # A non""", """        if not self.db.has_service(service_id):
            raise NotFoundError("service", service_id)
        service = self.db.get_service(service_id)

        service.check_access(self.user_id)

        # A non"""),
    ("""                prev_client_id = service.client_id()

                if prev_client_id != self.client_id:
                    self.capture_service(service)

                    with service.modify() as change:
                        # The client id is allowed to change (though you might
                        # argue against this permissive behavior), however the
                        # assumption is that the user stays the same, so no
                        # need to transfer resource tokens.
                        change.orphan_since = None
                        change.client_id = self.client_id
                elif service.is_orphan():
                    # previous owner is back
                    self.capture_service(service)

                    with service.modify() as change:
                        change.orphan_since = None
""", """                if not self.owns(service):
                    self.capture_service(service)

                    with service.modify() as change:
                        change.orphan_since = None
                        change.client_id = self.client_id
"""),
    ("""                if self.client_id != service.client_id() or \\
                   service.is_orphan():
                    self.capture_service(service)
""", """                if not self.owns(service):
                    self.capture_service(service)
"""),
    ("""    @assure_connected
    def unpublish(self, service_id):
""", """    def owns(self, service):
        return self.active_connection.has_service(service.service_id)

    @assure_connected
    def unpublish(self, service_id):
"""),
    ("""        connection.remove_service(service)

        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)

        if connection.is_stale():
            self.remove_connection(connection)

        if self.is_stale():
            self.db.remove_client(self)

        self.db.remove_service(service)

        service.remove()
""", """        connection.remove_service(service)
        self.db.remove_service(service)

        service.remove()

        if connection.is_stale():
            self.remove_connection(connection)
            if self.is_stale():
                self.db.remove_client(self)

        self.resource_manager.deallocate(self.user_id, ResourceType.SERVICE)
"""),
    # the idle timer is moved when it fires
    ("""    def install_idle_warning_timer(self):
        warning_time = jitter(WARNING_THRESHOLD * self.max_idle_time(),
                              WARNING_JITTER)
        self.install_idle_timer(warning_time)
""", """    def install_idle_warning_timer(self):
        warning_time = jitter(WARNING_THRESHOLD * self.max_idle_time(),
                              WARNING_JITTER)
        self.warn_at = time.time() + warning_time
        if self.idle_timer is not None and \\
           self.idle_timer.expiration_time <= self.warn_at:
            return
        self.install_idle_timer(warning_time)
"""),
    ("""        if self.idle_state == IdleState.ACTIVE:
            self.issue_idle_warning()
        else:
            assert""", """        if self.idle_state == IdleState.ACTIVE:
            left = self.warn_at - time.time()
            if left > 0:
                self.install_idle_timer(left)
            else:
                self.issue_idle_warning()
        else:
            assert"""),
)
rep('paf/client.py',
    ("""    poll = select.poll()
    poll.register(conn.fileno(), select.POLLIN)
    while not criteria():
        poll.poll()
        conn.process()
""", """    while not criteria():
        select.select([conn], [], [])
        conn.process()
"""),
    ("""            transaction = self.transactions.get(in_msg.ta_id)
            if transaction is None:
                raise""", """            try:
                transaction = self.transactions[in_msg.ta_id]
            except KeyError:
                raise"""),
    ("""        transaction = Transaction(ta_type, ta_id)
        request_msg = transaction.produce_request(request_args,
                                                  request_optargs,
                                                  response_cb)
        out_wire_msg = request_msg.to_wire()
        self.out_wire_msgs.append(out_wire_msg)
        self.transactions[ta_id] = transaction
        self.try_send()
        return ta_id
""", """        transaction = Transaction(ta_type, ta_id)
        request_msg = transaction.produce_request(request_args,
                                                  request_optargs,
                                                  response_cb)
        wire = request_msg.to_wire()
        self.transactions[ta_id] = transaction
        self._queue(wire)
        return ta_id

    def _queue(self, out_wire_msg):
        self.out_wire_msgs.append(out_wire_msg)
        self.try_send()
"""),
    ("""        out_wire_msg = inform_msg.to_wire()
        self.out_wire_msgs.append(out_wire_msg)
        self.try_send()
""", """        self._queue(inform_msg.to_wire())
"""))
rep('paf/daemon.py',
    ("""        servers = []
        for domain in conf.domains:
            user = conf.resources.user.resources
            total = conf.resources.total.resources
            server = paf.server.create(domain.name, domain.sockets, user,
                                       total, domain.proto_version_limit,
                                       domain.idle_limit, event_loop)
            servers.append(server)
""", """        limits = (conf.resources.user.resources,
                  conf.resources.total.resources)
        servers = []
        for domain in conf.domains:
            servers.append(paf.server.create(
                domain.name, domain.sockets, limits[0], limits[1],
                domain.proto_version_limit, domain.idle_limit, event_loop))
"""))
