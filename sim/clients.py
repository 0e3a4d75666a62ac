"""Simulated client processes that run the real paf.client library.

Each client process is a node of its own: an application written here calls
the public API of paf.client, which runs unmodified on the simulated
transport.  `ClientOracle` watches the library at its transport boundary and
at its API, and decides from the messages that really arrived which outcome
every call and which events every callback must have.

Two kinds of applications:

 script  executes the calls the scenario puts into its mailbox
 agent   keeps a desired state (services, subscriptions) and restores it
         after every lost connection (used for server restarts)

The peer is the real server, or a `Stub` that answers as the scenario says,
including in ways no server should.
"""

import errno as E
import io
import json
import traceback
from collections import deque

from . import spec
from .kernel import Node, SimKill, HarnessError
from .loader import Instance, Proxy, make_fakes
from .net import Proc, Sched, Link, Waiter, RECEIVABLE, SENDABLE, PipeEnd
from .scenario import Run, FakeLogger, load_instance

SLACK = 2e-3


# ---------------------------------------------------------------------------
# oracle
# ---------------------------------------------------------------------------

class Rec:
    """One transaction the application has asked for."""
    __slots__ = ('cmd', 'fields', 'ta', 'state', 'token', 'events', 'api',
                 'rows', 'internal', 'notifies', 'complete', 'reason',
                 'queries', 'replies')

    def __init__(self, cmd, fields, token=None, internal=None):
        self.cmd = cmd
        self.fields = fields
        self.ta = None
        self.state = 'requesting'
        self.token = token          # callback token for asynchronous calls
        self.internal = internal    # 'hello' / 'tracker'
        self.notifies = []
        self.complete = None
        self.reason = None
        self.queries = 0
        self.replies = 0


class ApiCall:
    def __init__(self, name, rec, t):
        self.name = name
        self.rec = rec
        self.start = t


class ConnModel:
    """What the library must know and do about one connection."""

    def __init__(self, o, cid, vrange, track, token):
        self.o = o
        self.cid = cid
        self.vrange = vrange
        self.track = track
        self.ready_token = token        # None: synchronous connect
        self.version = None
        self.end = None
        self.open = {}
        self.outq = deque()             # messages that have to be sent
        self.must = None                # why an error has to be raised
        self.gray = None                # the peer did something unspecified
        self.tracker = None
        self.raised = False
        self.received = 0
        self.last_rx = -1.0
        self.addr = None                # where it has to go, if known
        self.cred = {}                  # ... and with which credentials

    @property
    def name(self):
        return self.end.link.name if self.end is not None else '?'


class ClientOracle:
    def __init__(self, run, node):
        self.run = run
        self.sim = run.sim
        self.node = node
        self.conns = {}                 # link name -> ConnModel
        self.calls = []                 # stack of API calls in progress
        self.connecting = None
        self.due = deque()              # callbacks that must come now
        self.shutdown = False
        self.turns = 0

    def fail(self, code, text, tags=()):
        self.sim.violate(code, {'P16', self.run.scn['property']} | set(tags),
                         "%s: %s" % (self.node.name, text))
        raise SimKill()

    # -- API side ----------------------------------------------------------
    def begin(self, call):
        self.no_due("before the next call")
        self.calls.append(call)

    def end(self, call, cm):
        self.no_due("when %s() returned" % call.name)
        if self.calls.pop() is not call:
            raise HarnessError("API calls not nested")
        if cm is not None and cm.must and not cm.gray:
            self.fail('error-swallowed', "%s() returned normally although %s"
                      % (call.name, cm.must))

    def raised(self, call, cm, exc, client):
        """An exception came out of an API call."""
        if self.calls.pop() is not call:
            raise HarnessError("API calls not nested")
        if isinstance(exc, client.TransactionError):
            rec = call.rec
            if rec is None or rec.token is not None or \
               rec.internal == 'hello':
                self.fail('wrong-error', "%s() raised %r" % (call.name, exc))
            if cm.gray:
                return
            if rec.state != 'failed':
                self.fail('wrong-error', "%s() raised %r but the server did "
                          "not fail the request" % (call.name, exc))
            if rec.reason is not None and rec.reason not in str(exc):
                self.fail('wrong-reason', "%s() raised %r, the server said %r"
                          % (call.name, str(exc), rec.reason))
            self.no_due("when %s() failed" % call.name)
            self.sim.probe('api-transaction-error')
            return
        if not isinstance(exc, (client.ProtocolError, client.TransportError)):
            text = ''.join(traceback.format_exception_only(type(exc), exc))
            tb = traceback.extract_tb(exc.__traceback__)
            self.fail('api-crash', "%s() raised %s (at %s)" %
                      (call.name, text.strip(),
                       "%s:%d" % (tb[-1].filename.split('/')[-1],
                                  tb[-1].lineno) if tb else '?'))
        self.due.clear()
        if cm is not None and not cm.must and not cm.gray:
            self.fail('spurious-error', "%s() raised %r although the "
                      "connection is fine and the peer did nothing wrong" %
                      (call.name, exc))
        if cm is not None:
            cm.raised = True
        self.sim.probe('api-' + type(exc).__name__)

    def no_due(self, when):
        if self.due:
            cm, rec, ev, payload = self.due[0]
            if cm.gray:
                self.due.clear()
                return
            self.fail('callback-missing', "callback of %s did not get %s %s"
                      % (rec.cmd, ev, when))

    def callback(self, token, ta, ev, args, optargs):
        for cm, rec, _, _ in self.due:
            if cm.gray:
                return
        for cm in self.conns.values():
            if cm.gray and not cm.end.closed:
                return
        if not self.due:
            self.fail('callback-invented', "callback %r called with %s %r, "
                      "but no such response arrived" % (token, ev, args))
        cm, rec, ev2, payload = self.due.popleft()
        if rec.token != token or ev2 != ev or (ta != rec.ta and
                                               rec.token[0] != 'ready'):
            self.fail('callback-wrong', "callback %r got %s in transaction "
                      "%s; due is %s in transaction %s of %r" %
                      (token, ev, ta, ev2, rec.ta, rec.token))
        if payload is not None and payload != norm(args, optargs):
            self.fail('callback-content', "callback of %s got %s %r, the "
                      "server sent %r" % (rec.cmd, ev, norm(args, optargs),
                                          payload))
        self.sim.probe('api-callback-' + ev)

    def check_result(self, call, cm, value):
        rec = call.rec
        if rec is None or rec.token is not None or cm.gray:
            return
        if rec.state != 'done':
            self.fail('false-success', "%s() returned %r although the request "
                      "was not completed (%s)" % (call.name, value,
                                                  rec.state))
        if rec.cmd == 'hello':
            got = list(value)
            if got != [rec.complete['protocol-version']]:
                self.fail('wrong-result', "hello() returned %r, the server "
                          "sent %r" % (value, rec.complete))
        elif rec.cmd in ('services', 'subscriptions', 'clients'):
            got = [norm([x for x in n if not (isinstance(x, dict) and
                                              x is n[-1] and is_opt(x))],
                        n[-1] if n and is_opt(n[-1]) else {})
                   for n in value]
            if got != rec.notifies:
                self.fail('wrong-result', "%s() returned %r, the server sent "
                          "%r" % (call.name, got, rec.notifies))
        elif rec.cmd == 'ping':
            d = self.sim.now - call.start
            if not self.run.jumped and not -SLACK <= value <= d + SLACK:
                self.fail('wrong-result', "ping() returned %r after %.6f s" %
                          (value, d))
        self.sim.probe('api-success-' + rec.cmd)

    # -- transport side ------------------------------------------------------
    def cm_of(self, end):
        return self.conns.get(end.link.name)

    def on_connect(self, end):
        cm = self.connecting
        if cm is None:
            self.fail('stray-connection', "library opened a connection nobody "
                      "asked for")
        if cm.addr is not None and end.link.addr != cm.addr:
            self.fail('wrong-server', "library connected to %s instead of %s" %
                      (end.link.addr, cm.addr))
        cred = {k: v for k, v in end.attrs.items() if k.startswith('tls.')}
        if cred != cm.cred:
            self.fail('wrong-server', "library connected with the credentials "
                      "%s instead of %s" % (cred, cm.cred))
        cm.end = end
        self.conns[end.link.name] = cm

    def on_out(self, proc, end, data):
        cm = self.cm_of(end)
        if cm.gray or cm.must:
            return
        try:
            m = json.loads(data.decode())
        except ValueError:
            self.fail('bad-request', "library sent %r" % data[:100])
        if not cm.outq:
            self.fail('request-invented', "library sent %r unasked" % m)
        rec, mtype, fields = cm.outq.popleft()
        ta = m.pop('ta-id', None)
        cmd = m.pop('ta-cmd', None)
        mt = m.pop('msg-type', None)
        if 'service-props' in m:
            m['service-props'] = spec.props_key(m['service-props'])
        if fields.get('client-id', 0) is None:
            # chosen by the library
            fields = rec.fields = dict(fields)
            if cm.cid is None:
                cm.cid = m.get('client-id')
                if type(cm.cid) is not int or not 0 <= cm.cid < 1 << 63 or \
                   cm.cid in self.run.allocated:
                    self.fail('bad-client-id', "library chose the client id "
                              "%r%s" % (cm.cid, ", which it has chosen before"
                                        if cm.cid in self.run.allocated
                                        else ""))
                self.run.allocated.add(cm.cid)
            fields['client-id'] = cm.cid
        if (cmd, mt) != (rec.cmd, mtype) or m != fields:
            self.fail('bad-request', "library sent %s %s %r where %s %s %r "
                      "was due" % (cmd, mt, m, rec.cmd, mtype, fields))
        if mtype == 'request':
            if ta in cm.open or not isinstance(ta, int):
                self.fail('ta-id-reused', "library uses transaction id %r, "
                          "which is in use" % ta)
            rec.ta = ta
            cm.open[ta] = rec
        elif ta != rec.ta:
            self.fail('bad-request', "inform in transaction %r instead of %r"
                      % (ta, rec.ta))

    def on_txerr(self, proc, end, err):
        cm = self.cm_of(end)
        if cm is not None and cm.must is None:
            cm.must = "sending failed with errno %d" % err

    def on_rxend(self, proc, end, why):
        cm = self.cm_of(end)
        self.no_due("before the next receive")
        if cm is not None and cm.must is None:
            cm.must = "the connection has ended (%s)" % why

    def on_attrerr(self, *a):
        pass

    def on_close(self, proc, hd):
        pass

    def on_in(self, proc, end, data):
        cm = self.cm_of(end)
        self.no_due("before the next message was taken")
        if cm.must is not None and not cm.gray and cm.raised is False:
            self.fail('error-swallowed', "library went on receiving although "
                      "%s" % cm.must)
        res = self.take(cm, data)
        if res is not None:
            self.taken(cm, *res)

    def take(self, cm, data):
        """What a message means for the transaction it belongs to: the
        transaction, the event, its payload and the fields, or None."""
        cm.received += 1
        cm.last_rx = self.sim.now
        if cm.gray or cm.must:
            return
        try:
            cmd, ta, mtype, f = spec.parse_server_message(
                data, cm.version or 2)
        except spec.Bad as e:
            # an unknown (newer) failure reason is not the library's business
            if 'unknown fail reason' in str(e):
                m = json.loads(data.decode())
                cmd, ta, mtype = m['ta-cmd'], m['ta-id'], 'fail'
                f = {'fail-reason': m['fail-reason']}
            else:
                cm.must = "the peer sent a bad message (%s)" % e
                self.sim.probe('peer-bad-message')
                return
        except spec.Gray as e:
            cm.gray = str(e)
            return
        if cmd not in spec.commands(cm.version or 2):
            cm.must = "the peer used command %s in version %s" % (cmd,
                                                                  cm.version)
            return
        rec = cm.open.get(ta)
        if rec is None:
            cm.must = "the peer used unknown transaction %d" % ta
            self.sim.probe('peer-unknown-ta')
            return
        if rec.cmd != cmd:
            cm.must = "the peer sent %s in %s transaction" % (cmd, rec.cmd)
            return
        multi = cmd in spec.MULTI
        two = cmd in spec.TWO_WAY
        if 'service-props' in f:
            f['service-props'] = spec.props_key(f['service-props'])
        payload = payload_of(cmd, mtype, f, cm.version or 2)
        if mtype == 'accept' and rec.state == 'requesting' and (multi or two):
            rec.state = 'accepted'
            ev = 'ACCEPT'
        elif mtype == 'notify' and rec.state == 'accepted':
            ev = 'NOTIFY'
            rec.notifies.append(payload)
        elif mtype == 'complete' and (rec.state == 'accepted' if multi else
                                      rec.state == 'requesting' and not two):
            ev = 'COMPLETE'
            rec.state = 'done'
            rec.complete = f
            del cm.open[ta]
        elif mtype == 'fail' and rec.state == 'requesting':
            ev = 'FAIL'
            rec.state = 'failed'
            rec.reason = f.get('fail-reason')
            del cm.open[ta]
        elif mtype == 'fail' and rec.state == 'accepted':
            cm.gray = "fail in accepted transaction"
            return
        else:
            cm.must = "the peer sent %s in state %s of %s" % (mtype,
                                                              rec.state, cmd)
            self.sim.probe('peer-wrong-type')
            return
        return rec, ev, payload, f

    def taken(self, cm, rec, ev, payload, f):
        if rec.internal == 'hello':
            if ev == 'FAIL':
                cm.must = "hello was refused"
                return
            v = f['protocol-version']
            if v not in (2, 3):
                cm.must = "the peer selected protocol version %d" % v
                return
            if not cm.vrange[0] <= v <= cm.vrange[1]:
                cm.gray = "version that was not offered"
                return
            cm.version = v
            if cm.track and v >= 3:
                t = Rec('track', {}, internal='tracker')
                cm.tracker = t
                cm.outq.append((t, 'request', {}))
            if cm.ready_token is not None:
                r = Rec('hello', {}, token=('ready', cm.ready_token))
                self.due.append((cm, r, 'READY', None))
            return
        if rec.internal == 'tracker':
            if ev == 'NOTIFY':
                if f['track-type'] == 'query':
                    cm.outq.append((rec, 'inform', {'track-type': 'reply'}))
                    self.sim.probe('tracker-query')
                elif f['track-type'] == 'reply':
                    rec.replies += 1
                    if rec.replies > rec.queries:
                        cm.must = "the peer sent an unsolicited track reply"
                else:
                    cm.gray = "unknown track type"
            return
        if rec.token is not None:
            self.due.append((cm, rec, ev, payload))

    def poll_enter(self, proc, timeout, waiter):
        self.turns += 1
        self.no_due("before the process went to sleep")
        for cm in list(self.conns.values()):
            end = cm.end
            if end is None or end.closed or cm.gray or cm.raised:
                continue
            if cm.must:
                self.fail('error-swallowed', "library goes to sleep although "
                          "%s" % cm.must)
            if not end.cond & RECEIVABLE:
                self.fail('client-deaf', "library sleeps without waiting for "
                          "messages on %s" % cm.name)
            if cm.outq and not end.cond & SENDABLE:
                self.fail('client-mute', "library sleeps although %d messages "
                          "are unsent and it does not wait for %s to become "
                          "writable" % (len(cm.outq), cm.name))
            if end.cond & SENDABLE and not cm.outq:
                self.fail('client-spins', "library waits for %s to become "
                          "writable with nothing to send" % cm.name)
        if self.calls:
            rec = self.calls[-1].rec
            if rec is not None and rec.token is None and \
               rec.state in ('done', 'failed') and \
               not self.calls[-1].cm.gray:
                self.fail('call-stuck', "%s() still waits although its "
                          "request has been answered" % self.calls[-1].name)
            cm = self.calls[-1].cm
            if self.calls[-1].name == 'connect' and cm.version is not None \
               and cm.ready_token is None and not cm.gray:
                self.fail('call-stuck', "connect() still waits although hello "
                          "has been answered")

    def poll_return(self, proc, res):
        pass


def is_opt(x):
    return isinstance(x, dict) and set(x) <= {
        'orphan_since', 'filter', 'latency', 'generation', 'service_props',
        'ttl', 'client_id', 'fail_reason'} and \
        not any(isinstance(v, (set, frozenset)) for v in x.values())


ORDER = {
    ('track', 'notify'): ('track-type',),
    ('subscribe', 'notify'): ('match-type', 'service-id'),
    ('subscriptions', 'notify'): ('subscription-id', 'client-id'),
    ('services', 'notify'): ('service-id', 'generation', 'service-props',
                             'ttl', 'client-id'),
    ('hello', 'complete'): ('protocol-version',),
}


def payload_of(cmd, mtype, f, version):
    """What a callback gets: positional fields in order, then the rest."""
    order = ORDER.get((cmd, mtype), ())
    if (cmd, mtype) == ('clients', 'notify'):
        order = ('client-id', 'client-address', 'time')
        if version >= 3:
            order += ('idle', 'protocol-version')
    args = tuple(f[k] for k in order)
    opt = {k.replace('-', '_'): v for k, v in f.items() if k not in order}
    return (args, tuple(sorted(opt.items())))


def _norm(v):
    if isinstance(v, dict):
        return spec.props_key({k: list(s) for k, s in v.items()})
    return v


def norm(args, optargs):
    return (tuple(_norm(a) for a in args),
            tuple(sorted((k, _norm(v)) for k, v in optargs.items())))


# ---------------------------------------------------------------------------
# client processes
# ---------------------------------------------------------------------------

class ClientNode:
    def __init__(self, run, name, conf):
        self.run = run
        self.name = name
        self.conf = conf
        sim, net = run.sim, run.net
        self.node = node = Node(sim, name, self.main)
        node.role = 'client'
        node.client = self
        self.proc = proc = Proc(sim, net, node, 5000 + len(run.nodes),
                                Sched(conf.get('sched', {})))
        proc.hang_tags = ['P16', 'P19', 'P21']
        node.proc = proc
        proc.connector = self.new_link
        proc.sleep = self.sleep
        self.oracle = ClientOracle(run, node)
        proc.observer = self.oracle
        self.inst = load_instance(sim, net, node)

        self.files = {}

        def sim_open(path, *a, **kw):
            text = self.files.get(str(path).rsplit('/', 1)[-1])
            if text is None or str(path).startswith('/proc'):
                raise FileNotFoundError(E.ENOENT, "no such file", path)
            return io.StringIO(text)
        self.inst.builtins['open'] = sim_open
        self.mail = deque()
        self.conn = None
        self.cm = None
        self.nlink = 0
        self.ncall = 0
        self.link_opts = dict(conf.get('link', {}))
        self.stopping = False
        self.links = []
        self.exited = False
        self.log = []

    # -- plumbing ------------------------------------------------------------
    def new_link(self, addr):
        self.nlink += 1
        name = "%s.%d" % (self.name, self.nlink)
        user = self.conf.get('user')
        opts = dict(self.link_opts)
        remote = ('ux:' + name) if user is None else \
            'tcp:%s:%d' % (user, 30000 + self.nlink)
        link = Link(self.run.net, name, addr, remote, opts)
        if 'ceagain_p' in opts:
            link.ceagain_p = opts['ceagain_p']
        self.links.append(link)
        self.run.links[name] = link
        return link

    def post(self, cmd):
        self.mail.append(cmd)
        if self.wfd is not None and not self.proc.dead:
            self.proc.write(self.wfd, b'x')

    wfd = None

    def sleep(self, d):
        """time.sleep in a client process (not interrupted by anything)."""
        self.proc.enter('sleep')
        Waiter(self.proc, {}, d).block()

    def wait_any(self, timeout):
        """Sleep until the connection or the mailbox needs attention."""
        poll = self.proc.make_poll()
        poll.register(self.rfd)
        if self.conn is not None:
            poll.register(self.conn.fileno())
        res = poll.poll(None if timeout is None else timeout * 1000)
        ready = [fd for fd, _ in res]
        if self.rfd in ready and self.proc.fds[self.rfd].ready():
            self.proc.read(self.rfd, 1000)
        if self.conn is not None and self.conn.fileno() in ready:
            self.api('process', None, self.conn.process)

    def main(self, node):
        self.client = self.inst.load('paf.client')
        self.rfd, self.wfd = self.proc.pipe()
        if self.mail:
            self.proc.write(self.wfd, b'x')
        try:
            self.app()
        except self.client.Error as e:
            raise HarnessError("unexpected %r" % e)

    # -- calling the library ---------------------------------------------------
    def api(self, name, rec, fn, *args, **kw):
        """One call on the API; protocol and transport errors come back as
        None with the connection closed, the way an application does it."""
        o, cm = self.oracle, self.cm
        call = ApiCall(name, rec, self.run.sim.now)
        call.cm = cm
        outer = not o.calls
        o.begin(call)
        self.run.sim.log('API', self.name, name)
        try:
            value = fn(*args, **kw)
        except SimKill:
            raise
        except BaseException as e:          # noqa: B902
            if isinstance(e, HarnessError):
                raise
            o.raised(call, cm, e, self.client)
            self.run.sim.log('API-ERR', self.name, name, type(e).__name__)
            if isinstance(e, self.client.TransactionError):
                return ('fail', rec.reason)
            if not outer:
                raise
            self.drop()
            return ('error', type(e).__name__)
        o.end(call, cm)
        o.check_result(call, cm, value)
        return ('ok', value)

    def drop(self):
        conn, self.conn = self.conn, None
        self.cm_old, self.cm = self.cm, None
        if conn is not None:
            conn.close()
        self.lost()

    def lost(self):
        pass

    def connect(self, addr, cid, track, vrange, is_async, how=None):
        """how: by server configuration, by plain address or by the name of a
        domain, whose file is written first; cid None: let the library
        choose."""
        o = self.oracle
        self.ncall += 1
        token = self.ncall if is_async else None
        self.cm = cm = ConnModel(o, cid, vrange, track, token)
        rec = Rec('hello', {'client-id': cid,
                            'protocol-minimum-version': vrange[0],
                            'protocol-maximum-version': vrange[1]},
                  internal='hello')
        cm.outq.append((rec, 'request', rec.fields))
        cm.addr = addr
        o.connecting = cm
        self.ready = False
        before = set(self.proc.handles)
        if how is None:
            conf = self.client.ServerConf(addr, vrange[0], vrange[1])
        elif how[0] == 'name':
            self.files['dom'] = how[1]
            conf = 'dom'
            if how[1].strip().startswith('{'):
                first = json.loads(how[1])['servers'][0]
                cm.cred = {spec.DOMAIN_TLS[k]: v for k, v in first.items()
                           if k in spec.DOMAIN_TLS}
        else:
            conf = addr
        self.run.sim.probe('api-connect-' + ('conf' if how is None else
                                             how[0]))
        kw = {} if cid is None else {'client_id': cid}
        if is_async:
            kw['ready_cb'] = lambda: self.on_ready(token)
        holder = []

        def do():
            # the connection exists as soon as there is one, as callbacks
            # may already use it
            holder.append(self.client.connect(conf, track=track, **kw))
        call = ApiCall('connect', None, self.run.sim.now)
        call.cm = cm
        o.begin(call)
        self.run.sim.log('API', self.name, 'connect')
        try:
            do()
        except SimKill:
            raise
        except BaseException as e:          # noqa: B902
            if isinstance(e, HarnessError):
                raise
            if cm.end is None:
                # the transport refused at once
                if not isinstance(e, self.client.TransportError):
                    o.fail('wrong-error', "connect() to nobody raised %r" % e)
                o.calls.pop()
                o.due.clear()
            else:
                if isinstance(e, self.client.TransactionError):
                    o.fail('wrong-error', "connect() raised %r" % e)
                o.raised(call, cm, e, self.client)
            self.run.sim.log('API-ERR', self.name, 'connect',
                             type(e).__name__)
            e.__traceback__ = None
            del e
            left = set(self.proc.handles) - before
            if left:
                import gc
                gc.collect()
                left = set(self.proc.handles) - before
            if left:
                o.fail('client-socket-leak', "connect() failed and left its "
                       "socket open")
            self.cm = None
            return False
        finally:
            o.connecting = None
        o.end(call, cm)
        if not cm.gray and not is_async and cm.version is None:
            o.fail('false-success', "connect() returned before hello was "
                   "answered")
        self.conn = holder[0]
        if not is_async:
            self.ready = True
            if not cm.gray and self.conn.proto_version != cm.version:
                o.fail('wrong-result', "connection believes in protocol "
                       "version %r, %r was agreed" %
                       (self.conn.proto_version, cm.version))
        return True

    def on_ready(self, token):
        self.oracle.callback(('ready', token), None, 'READY', (), {})
        self.ready = True

    def callback(self, token, hook=None):
        EVENTS = self.client.EventType

        def cb(ta_id, event, *args, **optargs):
            self.run.sim.log('CB', self.name, token, event.name)
            pay_args = args
            self.oracle.callback(token, ta_id, event.name, pay_args, optargs)
            if hook is not None:
                hook(ta_id, event.name, args, optargs)
        del EVENTS
        return cb

    def request(self, method, args, is_async=False, hook=None):
        """Issue one API request; returns ('ok', value), ('fail', reason) or
        ('error', kind)."""
        conn = self.conn
        self.ncall += 1
        cmd, fields, pyargs, kw = self.wire(method, args)
        always = method in ('subscribe', 'track')
        token = ('cb', self.ncall) if is_async or always else None
        rec = Rec(cmd, fields, token=token)
        self.cm.outq.append((rec, 'request', fields))
        if token is not None:
            kw['response_cb'] = self.callback(token, hook)
        res = self.api(method, rec, getattr(conn, method), *pyargs, **kw)
        if token is not None and res[0] == 'ok':
            rec_ta = res[1]
            if rec.ta is not None and rec_ta != rec.ta:
                self.oracle.fail('wrong-result', "%s() returned transaction "
                                 "id %r but used %r" % (method, rec_ta,
                                                        rec.ta))
        self.last_rec = rec
        return res

    def wire(self, method, a):
        if method == 'publish':
            sid, gen, props, ttl = a
            return ('publish', {'service-id': sid, 'generation': gen,
                                'service-props': spec.props_key(props),
                                'ttl': ttl},
                    (sid, gen, {k: set(v) for k, v in props.items()}, ttl),
                    {})
        if method == 'unpublish':
            return 'unpublish', {'service-id': a[0]}, (a[0],), {}
        if method == 'subscribe':
            f = {'subscription-id': a[0]}
            kw = {}
            if len(a) > 1 and a[1] is not None:
                f['filter'] = a[1]
                kw['filter'] = a[1]
            return 'subscribe', f, (a[0],), kw
        if method == 'unsubscribe':
            return 'unsubscribe', {'subscription-id': a[0]}, (a[0],), {}
        if method == 'services':
            if a and a[0] is not None:
                return 'services', {'filter': a[0]}, (), {'filter': a[0]}
            return 'services', {}, (), {}
        if method == 'hello':
            f = {'client-id': self.cm.cid,
                 'protocol-minimum-version': self.cm.vrange[0],
                 'protocol-maximum-version': self.cm.vrange[1]}
            kw = {}
            if a:
                f['protocol-minimum-version'] = a[0]
                f['protocol-maximum-version'] = a[1]
                kw['proto_version_range'] = (a[0], a[1])
            return 'hello', f, (), kw
        return method, {}, (), {}


class ScriptNode(ClientNode):
    """Executes the calls of the scenario, one after the other."""

    def app(self):
        self.tracks = []
        while not self.stopping:
            while self.mail:
                self.command(self.mail.popleft())
                if self.stopping:
                    break
            if self.stopping:
                break
            self.wait_any(None)
        if self.conn is not None:
            self.drop()

    def lost(self):
        self.tracks = []

    def command(self, c):
        kind, args = c[0], c[1:]
        if kind == 'stop':
            self.stopping = True
        elif kind == 'connect':
            addr, cid, track, vrange, is_async = args[:5]
            if self.conn is not None:
                self.drop()
            if self.connect(addr, cid, track, vrange, is_async, *args[5:]):
                if is_async and self.conf.get('wait_ready', True):
                    while self.conn is not None and not self.ready:
                        self.wait_any(None)
        elif self.conn is None or not self.ready:
            return
        elif kind == 'close':
            self.drop()
        elif kind == 'inform':
            self.inform(args[0])
        elif kind == 'many':
            for i in range(args[0]):
                if self.conn is None or self.stopping or \
                   self.run.phase in ('calm', 'end'):
                    break
                self.request(args[1], [], args[2] and i % args[2] != 0)
        elif kind == 'call':
            method, a, is_async = args[:3]
            then = args[3] if len(args) > 3 else None
            if method == 'track' and self.conn.proto_version < 3:
                return
            hook = None
            if method == 'track':
                hook = self.track_hook
            elif then:
                hook = self.then_hook(then)
            self.request(method, a, is_async, hook)

    def then_hook(self, then):
        left = [list(x) for x in then]

        def hook(ta, ev, args, optargs):
            # calls from within a callback, also synchronous ones
            if ev in ('COMPLETE', 'FAIL', 'ACCEPT') and left and \
               self.conn is not None and self.cm is not None:
                m, a, is_async = left.pop(0)
                if m == 'track' and self.conn.proto_version < 3:
                    return
                self.run.sim.probe('api-call-in-callback')
                self.request(m, a, is_async)
        return hook

    def track_hook(self, ta, ev, args, optargs):
        if ev == 'ACCEPT':
            rec = self.cm.open.get(ta)
            if rec is not None:
                self.tracks.append(rec)
        elif ev == 'NOTIFY' and args[0] == 'query' and self.conn is not None:
            rec = self.cm.open.get(ta)
            if rec is not None:
                self.cm.outq.append((rec, 'inform', {'track-type': 'reply'}))
                self.conn.track_reply(ta)

    def inform(self, what):
        t = self.conn.tracker
        if what == 'tracker' and t is not None and t.accepted:
            rec = self.cm.tracker
            if rec is None or rec.state != 'accepted':
                return
            rec.queries += 1
            self.cm.outq.append((rec, 'inform', {'track-type': 'query'}))
            self.api('query', None, t.query)
        elif what == 'track' and self.tracks:
            rec = self.tracks[-1]
            if rec.state != 'accepted':
                return
            self.cm.outq.append((rec, 'inform', {'track-type': 'query'}))
            self.api('track_query', None, self.conn.track_query, rec.ta)


class AgentNode(ClientNode):
    """Keeps its services published and its subscriptions alive."""

    def app(self):
        c = self.conf
        self.want = {}                  # sid -> [gen, props, ttl]
        self.subs = {}                  # sub_id -> filter
        self.acked = {}                 # sid -> gen acked on this connection
        self.views = {}                 # sub_id -> {sid: content}
        self.gone = set()               # to be unpublished
        self.addr_i = 0
        backoff = c.get('backoff', 0.2)
        while not self.stopping:
            self.take_mail()
            if self.stopping:
                break
            if self.conn is None:
                addrs = c['addrs']
                addr = addrs[self.addr_i % len(addrs)]
                self.addr_i += 1
                if not self.connect(addr, c['cid'], c.get('track', False),
                                    c.get('vrange', [2, 3]), False):
                    self.nap(backoff)
                    continue
                self.acked = {}
                self.views = {}
                self.run.sim.probe('agent-connected')
            if not self.restore():
                self.nap(backoff)
                continue
            if not self.mail:
                self.wait_any(c.get('tick'))
        if self.conn is not None:
            self.drop()

    def nap(self, d):
        end = self.run.sim.now + d
        while not self.stopping and self.run.sim.now < end - 1e-6 and \
                not self.mail:
            self.wait_any(max(0.001, end - self.run.sim.now))

    def lost(self):
        self.acked = {}
        self.views = {}

    def take_mail(self):
        while self.mail:
            m = self.mail.popleft()
            if m[0] == 'stop':
                self.stopping = True
            elif m[0] == 'pub':
                sid, props, ttl = m[1:]
                old = self.want.get(sid)
                self.want[sid] = [old[0] + m_step(old) if old else
                                  self.conf.get('gen0', 0), props, ttl]
                self.gone.discard(sid)
            elif m[0] == 'unpub':
                if self.want.pop(m[1], None) is not None:
                    if m[1] in self.acked:
                        self.gone.add(m[1])
            elif m[0] == 'sub':
                if m[1] not in self.subs:
                    self.subs[m[1]] = m[2]
            elif m[0] == 'bounce':
                if self.conn is not None:
                    self.drop()

    def refused(self, what, reason):
        self.run.sim.violate(
            'restore-refused', ['P19'],
            "%s: %s was refused (%s) although the client only repeats what it "
            "owns" % (self.name, what, reason))
        raise SimKill()

    def restore(self):
        """Make the server agree with the desired state."""
        for sub_id in sorted(self.subs):
            if sub_id not in self.views and self.conn is not None:
                self.views[sub_id] = view = {}
                r = self.request('subscribe', [sub_id, self.subs[sub_id]],
                                 hook=self.viewer(sub_id, view))
                if r[0] != 'ok':
                    return False
        for sid in sorted(self.want):
            if self.conn is None:
                return False
            gen, props, ttl = self.want[sid]
            if self.acked.get(sid) != gen:
                r = self.request('publish', [sid, gen, props, ttl])
                if r[0] == 'fail':
                    self.refused("publish of %d generation %d" % (sid, gen),
                                 r[1])
                if r[0] != 'ok':
                    return False
                self.acked[sid] = gen
        for sid in sorted(self.gone):
            if self.conn is None:
                return False
            if sid in self.want:
                continue
            r = self.request('unpublish', [sid])
            if r[0] == 'fail':
                self.run.sim.probe('agent-unpublish-gone')
            elif r[0] != 'ok':
                return False
            self.gone.discard(sid)
            self.acked.pop(sid, None)
        return self.conn is not None

    def viewer(self, sub_id, view):
        def hook(ta, ev, args, optargs):
            if ev == 'FAIL':
                self.refused("subscription %d" % sub_id,
                             optargs.get('fail_reason'))
            if ev == 'NOTIFY':
                mt, sid = args
                if mt == 'disappeared':
                    view.pop(sid, None)
                else:
                    view[sid] = (optargs['generation'],
                                 _norm(optargs['service_props']),
                                 optargs['ttl'], optargs['client_id'],
                                 optargs.get('orphan_since'))
        return hook


def m_step(old):
    return 1


# ---------------------------------------------------------------------------
# a peer that answers as it likes
# ---------------------------------------------------------------------------

class StubBacklog:
    def __init__(self, stub):
        self.stub = stub

    def append(self, link):
        self.stub.attach(link)

    def __len__(self):
        return 0

    def clear(self):
        pass


class Stub:
    """Listens at an address and talks the protocol, more or less."""

    def __init__(self, run, addr, conf):
        self.run = run
        self.sim = run.sim
        self.addr = addr
        self.conf = conf
        self.backlog = StubBacklog(self)
        self.accept_faults = deque()
        self.links = []
        run.net.listeners[addr] = self
        run.stubs.append(self)

    def attach(self, link):
        link.stub = StubConn(self, link)
        self.links.append(link)
        self.sim.log('STUB-ACCEPT', link.name)
        link.drain_stub()

    def close_all(self):
        for link in self.links:
            link.local_close(0)


class StubConn:
    def __init__(self, stub, link):
        self.stub = stub
        self.sim = stub.sim
        self.link = link
        self.conf = stub.conf
        self.rng = self.sim.rng("stub/" + link.name)
        self.track_ta = None
        self.subs = {}
        self.n = 0
        self.calm = False

    def disconnected(self, why):
        self.link.local_close(0)

    def later(self, fn):
        d = self.rng.choice([0, 0, 0.0005, 0.01, 0.2]) * self.rng.random()
        self.sim.after(d, lambda: fn() and None)

    def put(self, m):
        """Send a message, perhaps spoilt."""
        rng = self.rng
        if self.link.closed[0]:
            return
        data = spec.wire(m, spec.dialect(rng))
        if rng.random() < self.conf.get('bad_p', 0.0) and not self.calm:
            data = self.spoil(dict(m))
            self.sim.count('fault:peer-misbehaves')
            if data is None:
                return
        if not self.link.closed[0]:
            self.link.push(0, ('m', data))

    def spoil(self, m):
        rng = self.rng
        r = rng.random()
        if r < 0.1:
            return None                          # lost
        if r < 0.2:
            self.link.push(0, ('m', json.dumps(m).encode()))
            return json.dumps(m).encode()        # twice
        if m.get('track-type') == 'query' and r < 0.6:
            m['track-type'] = 'reply'            # nobody asked
            return json.dumps(m).encode()
        if r < 0.3:
            self.link.local_close(0, rst=rng.random() < 0.5)
            return None
        if r < 0.36:
            return bytes(rng.randrange(256) for _ in
                         range(rng.choice([1, 3, 50])))
        if r < 0.45:
            return rng.choice([
                b'[]', b'1', b'"x"', b'null', b'{}', b'{', b'[' * 50000,
                b'{"a":' * 5000, b'\xff\xfe', b'true', b'NaN', b'[{}]',
                b'{"ta-cmd": "hello"}', b'{"ta-cmd": []}',
                b'{"ta-cmd": "ping", "ta-id": 1e999, "msg-type": "complete"}',
                b'"\\ud800"', b' ' * 100])
        if r < 0.55:
            m['ta-id'] = rng.choice([10 ** 6, 999999, -1, '0', 1.5, None,
                                     1 << 63, [], {}, 'x'])
        elif r < 0.65:
            m['msg-type'] = rng.choice(['request', 'accept', 'notify',
                                        'complete', 'fail', 'inform', 'nope',
                                        7, None, [], {}])
        elif r < 0.72:
            m['ta-cmd'] = rng.choice(['hello', 'ping', 'services', 'track',
                                      'subscribe', 'clients', 'nope', 3, None,
                                      [], {}])
        elif r < 0.86:
            ks = sorted(k for k in m if k not in ('ta-id', 'ta-cmd',
                                                  'msg-type'))
            if ks:
                k = rng.choice(ks)
                if rng.random() < 0.3:
                    del m[k]
                else:
                    m[k] = rng.choice([-1, 'x', [], {}, None, 1.5, [1],
                                       {'a': 1}, {'a': [[]]}, 1 << 64, '',
                                       {'a': [None]}, {'a': {}}, -0.5])
            else:
                m['surprise'] = 1
        elif r < 0.92:
            m[rng.choice(['x', 'ta_id', 'self', 'fail-reason', 'event',
                          'cb'])] = rng.choice([1, 'y', [], None])
        else:
            # a response without request
            m = {'ta-cmd': rng.choice(['ping', 'track', 'services']),
                 'ta-id': rng.choice([10 ** 6, 10 ** 7]),
                 'msg-type': rng.choice(['complete', 'accept', 'fail'])}
        return json.dumps(m).encode()

    def received(self, data):
        try:
            m = json.loads(data.decode())
        except ValueError:
            return
        rng = self.rng
        cmd, ta, mt = m['ta-cmd'], m['ta-id'], m['msg-type']
        if mt != 'request':
            if m.get('track-type') == 'query' and rng.random() < 0.9:
                self.later(lambda: self.put(
                    {'ta-cmd': 'track', 'ta-id': ta, 'msg-type': 'notify',
                     'track-type': 'reply'}))
            return
        self.n += 1
        if rng.random() < self.conf.get('silent_p', 0.0) and not self.calm:
            self.sim.count('fault:peer-silent')
            return
        out = []

        def add(mtype, **f):
            d = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': mtype}
            d.update({k.replace('_', '-'): v for k, v in f.items()})
            out.append(d)
        if rng.random() < self.conf.get('fail_p', 0.1):
            r = rng.random()
            if r < 0.3:
                add('fail')
            else:
                add('fail', fail_reason=rng.choice(
                    sorted(spec.FAIL_REASONS) + ['brand-new', '', '%s %d']))
        elif cmd == 'hello':
            lo, hi = m['protocol-minimum-version'], \
                m['protocol-maximum-version']
            v = min(hi, 3)
            if rng.random() < self.conf.get('badver_p', 0.0):
                v = rng.choice([0, 1, 4, 9, 10 ** 9, lo])
            add('complete', protocol_version=v)
        elif cmd == 'track':
            add('accept')
            self.track_ta = ta
            for _ in range(rng.choice([0, 0, 1, 2])):
                add('notify', track_type='query')
        elif cmd in spec.MULTI:
            add('accept')
            for k in range(rng.choice([0, 0, 1, 1, 2, 5, 200])):
                add('notify', **self.item(cmd, m))
            if cmd != 'subscribe':
                add('complete')
            else:
                self.subs[m['subscription-id']] = ta
        else:
            if cmd == 'unsubscribe':
                t = self.subs.pop(m['subscription-id'], None)
                if t is not None:
                    out.append({'ta-cmd': 'subscribe', 'ta-id': t,
                                'msg-type': 'complete'})
            add('complete')
        if rng.random() < 0.5:
            for d in out:
                self.put(d)
        else:
            def step():
                self.put(out.pop(0))
                if out:
                    self.later(step)
            self.later(step)

    def item(self, cmd, req):
        rng = self.rng
        props = {k: rng.choice([['a'], [1], ['a', 1, 'b'], ['x' * 50], [0],
                                [-5, '']])
                 for k in rng.sample(['name', 'k', 'å', ''], rng.randint(0, 3))}
        if cmd == 'subscribe':
            mt = rng.choice(['appeared', 'modified', 'disappeared'])
            f = {'match_type': mt, 'service_id': rng.choice([0, 1, 2, 99])}
            if mt != 'disappeared':
                f.update(generation=rng.randint(0, 9), service_props=props,
                         ttl=rng.randint(0, 9), client_id=rng.randint(0, 9))
                if rng.random() < 0.3:
                    f['orphan_since'] = rng.choice([0, 1.5, 17])
            return f
        if cmd == 'subscriptions':
            f = {'subscription_id': rng.choice([0, 7]),
                 'client_id': rng.choice([0, 8])}
            if rng.random() < 0.5:
                f['filter'] = rng.choice(['(a=b)', ''])
            return f
        if cmd == 'services':
            f = {'service_id': rng.choice([0, 1, 99]),
                 'generation': rng.randint(0, 9), 'service_props': props,
                 'ttl': rng.randint(0, 3), 'client_id': rng.choice([0, 5])}
            if rng.random() < 0.4:
                f['orphan_since'] = rng.choice([0, 0.0, 2.5, 10 ** 10])
            return f
        f = {'client_id': rng.choice([0, 3]), 'client_address': 'tcp:1.2.3.4:5',
             'time': rng.choice([0, 1700000000])}
        if self.version() >= 3:
            f['idle'] = rng.choice([0, 0.25, 3])
            f['protocol_version'] = rng.choice([2, 3])
            if rng.random() < 0.5:
                f['latency'] = rng.choice([0, 0.5])
        return f

    def version(self):
        cm = self.stub.run.cm_of_link(self.link.name)
        return (cm.version or 2) if cm is not None else 2


# ---------------------------------------------------------------------------
# runs with client processes
# ---------------------------------------------------------------------------

class NodeRun(Run):
    def __init__(self, scn):
        Run.__init__(self, scn)
        self.nodes = {}
        self.links = {}
        self.stubs = []
        self.extra = self
        self.jumped = False
        self.allocated = set()

    def on_exit_client(self, node, status):
        c = node.client
        c.exited = True
        node.proc.kill_cleanup()
        if status[0] == 'raised':
            e = status[1]
            if isinstance(e, BaseException):
                self.sim.harness_error(e)

    def on_exit(self, node, status):
        if getattr(node, 'role', None) == 'client':
            return self.on_exit_client(node, status)
        return Run.on_exit(self, node, status)

    def cm_of_link(self, name):
        for c in self.nodes.values():
            cm = c.oracle.conns.get(name)
            if cm is not None:
                return cm
        return None

    # -- operations -----------------------------------------------------------
    def op_node(self, name, kind, conf):
        if name in self.nodes:
            return
        cls = {'script': ScriptNode, 'agent': AgentNode}[kind]
        c = cls(self, name, conf)
        self.nodes[name] = c
        self.sim.spawn(c.node)

    def op_stub(self, addr, conf):
        if addr not in self.net.listeners:
            Stub(self, addr, conf)

    def op_do(self, name, *cmd):
        c = self.nodes.get(name)
        if c is not None and not c.exited:
            c.post(list(cmd))

    def op_ncrash(self, name, vanish=0):
        c = self.nodes.get(name)
        if c is None or c.exited:
            return
        self.sim.count('fault:client-crash')
        self.crash_links(c.links, 1, vanish)
        c.exited = True
        self.net.crash(c.node)

    def crash_links(self, links, side, vanish):
        if not vanish:
            return
        for link in links:
            if not link.closed[side] and not link.closed[1 - side]:
                # the machine is gone: nobody tells the peer, whose kernel
                # gives up after a while
                link.closed[side] = True
                link.partitioned = True
                self.sim.after(vanish, lambda link=link:
                               self.give_up(link, 1 - side) and None)

    def give_up(self, link, side):
        if not link.closed[side] and link.rx_end[side] is None:
            link.flight[1 - side].clear()
            link.deliver(side, ('rst', E.ETIMEDOUT))
            self.sim.dirty = True

    def op_crash(self, n=0, vanish=0):
        if vanish and self.server is not None and self.server.up():
            self.crash_links(list(self.net.links), 0, vanish)
        Run.op_crash(self, n)

    def op_jump(self, d):
        self.jumped = True
        Run.op_jump(self, d)

    def _cur(self, name):
        c = self.nodes.get(name)
        if c is None or not c.links or c.links[-1].closed[1]:
            return None
        return c.links[-1]

    def op_npart(self, name, on):
        link = self._cur(name)
        if link is None:
            return
        if on:
            self.sim.count('fault:partition')
            link.partitioned = True
        elif not link.closed[0]:
            link.heal()

    def op_nrst(self, name):
        link = self._cur(name)
        if link is not None:
            self.sim.count('fault:connection-reset')
            link.push(1, ('rst',))
            link.push(0, ('rst',))

    def op_nfault(self, name, what, err, n=1):
        link = self._cur(name)
        if link is None:
            return
        q = {'send': link.csend_faults, 'recv': link.crecv_faults,
             'ssend': link.send_faults, 'srecv': link.recv_faults}[what]
        for _ in range(n):
            q.append(getattr(E, err))
        self.sim.dirty = True

    def op_sclose(self, addr, mode='close'):
        """The stub closes its connections."""
        for s in self.stubs:
            if s.addr == addr:
                for link in s.links:
                    if not link.closed[0]:
                        self.sim.count('fault:peer-closes')
                        link.local_close(0, rst=(mode == 'rst'))

    def op_squery(self, addr):
        """The stub sends track queries."""
        for s in self.stubs:
            if s.addr == addr:
                for link in s.links:
                    st = link.stub
                    if not link.closed[0] and st.track_ta is not None:
                        st.put({'ta-cmd': 'track', 'ta-id': st.track_ta,
                                'msg-type': 'notify', 'track-type': 'query'})

    # -- the end ----------------------------------------------------------------
    def calm(self):
        Run.calm(self)
        for name in sorted(self.nodes):
            c = self.nodes[name]
            c.link_opts = {}
            c.proc.sched = Sched({'late_p': 0.2, 'late_max': 0.001})
        for link in self.net.links:
            link.eagain_p = link.ceagain_p = 0.0
            link.csend_faults.clear()
            link.crecv_faults.clear()
            link.send_faults.clear()
            link.recv_faults.clear()
            if link.partitioned:
                if not (link.closed[0] or link.closed[1]):
                    link.heal()
                else:
                    for side in (0, 1):
                        self.give_up(link, side)
        for s in self.stubs:
            for link in s.links:
                link.stub.calm = True
        self.sim.dirty = True


def execute(scn, hang_cpu_s=10.0):
    if scn['mode'] == 'api':
        from .api import ApiRun as cls
    else:
        from .restart import RestartRun as cls
    run = cls(scn)
    res = run.execute(hang_cpu_s)
    run.result = res
    return run
