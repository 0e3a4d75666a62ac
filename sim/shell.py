"""P21: the interactive client app/pafc as a simulated process.

pafc consists of two threads, both of which are nodes of the simulator: one
runs the command loop, reading lines from a simulated terminal, the other
the connection.  Which of them runs, and when, is the scheduler's choice
whenever one blocks or touches something they share (semaphore, pipe,
terminal).  The oracle sees the command lines, the terminal output and the
messages of the connection, and decides from the messages what has to be
printed, and from the command lines what has to be sent.
"""

import cmd as _cmd
import errno as E
import io
import os
import re
import shlex
import signal as _signal
import sys
import threading as _threading
import types
from collections import deque

from . import loader, spec
from .clients import ClientNode, ClientOracle, ConnModel, NodeRun, Rec
from .kernel import Node, SimKill, HarnessError
from .loader import Proxy, _source
from .net import Waiter, RECEIVABLE, SENDABLE

SIGNED = re.compile(r'^[+-]?[0-9]+$')
INT_MAX = (1 << 63) - 1


class OsExit(SystemExit):
    pass


# ---------------------------------------------------------------------------
# threads of one process
# ---------------------------------------------------------------------------

class Cell:
    """Something a thread can wait for."""

    def __init__(self, shell, value=0):
        self.shell = shell
        self.value = value
        self.fd = shell.proc.alloc_fd(self)

    def ready(self):
        return self.value > 0

    def wait(self, timeout=None):
        """Block until ready; False on timeout."""
        p = self.shell.proc
        end = None if timeout is None else p.sim.now + max(0.0, timeout)
        while not self.value > 0:
            if end is not None and p.sim.now >= end:
                return False
            w = Waiter(p, {self.fd: 1},
                       None if end is None else end - p.sim.now)
            w.block()
        return True

    def changed(self):
        self.shell.sim.dirty = True


def make_threading(shell):
    """The threading module of the process."""

    class Thread:
        def __init__(self, group=None, target=None, name=None, args=(),
                     kwargs=None, daemon=None):
            self._target, self._args = target, args
            self._kwargs = kwargs or {}
            self.daemon = bool(daemon)
            self.name = name or 'Thread'
            self._done = None
            self._ident = None

        def start(self):
            self._done = Cell(shell)
            shell.start_thread(self)

        def run(self):
            if self._target is not None:
                self._target(*self._args, **self._kwargs)

        def is_alive(self):
            return self._done is not None and not self._done.value

        def join(self, timeout=None):
            if self._done is not None:
                self._done.wait(timeout)

        @property
        def ident(self):
            return self._ident

        def setDaemon(self, d):
            self.daemon = d

    class Semaphore:
        def __init__(self, value=1):
            self._c = Cell(shell, value)

        def acquire(self, blocking=True, timeout=None):
            shell.preempt()
            if not blocking:
                if self._c.value <= 0:
                    return False
            elif not self._c.wait(timeout):
                return False
            self._c.value -= 1
            return True

        def release(self, n=1):
            self._c.value += n
            self._c.changed()
            shell.preempt()

        __enter__ = acquire

        def __exit__(self, *a):
            self.release()

    class Lock(Semaphore):
        def __init__(self):
            Semaphore.__init__(self, 1)

        def acquire(self, blocking=True, timeout=-1):
            return Semaphore.acquire(self, blocking,
                                     None if timeout < 0 else timeout)

        def release(self):
            if self._c.value:
                raise RuntimeError("release unlocked lock")
            Semaphore.release(self)

        def locked(self):
            return not self._c.value
        __enter__ = acquire

    class RLock:
        def __init__(self):
            self._l, self._o, self._n = Lock(), None, 0

        def acquire(self, blocking=True, timeout=-1):
            me = shell.proc.node
            if self._o is not me:
                if not self._l.acquire(blocking, timeout):
                    return False
                self._o = me
            self._n += 1
            return True
        __enter__ = acquire

        def release(self):
            self._n -= 1
            if not self._n:
                self._o = None
                self._l.release()

        def __exit__(self, *a):
            self.release()

    class Event:
        def __init__(self):
            self._c = Cell(shell)

        def is_set(self):
            return bool(self._c.value)

        def set(self):
            self._c.value = 1
            self._c.changed()
            shell.preempt()

        def clear(self):
            self._c.value = 0

        def wait(self, timeout=None):
            shell.preempt()
            return self._c.wait(timeout)

    class Condition:
        def __init__(self, lock=None):
            self._l = lock or RLock()
            self.acquire, self.release = self._l.acquire, self._l.release
            self._w = []

        def __enter__(self):
            return self._l.acquire()

        def __exit__(self, *a):
            self._l.release()

        def wait(self, timeout=None):
            c = Cell(shell)
            self._w.append(c)
            self._l.release()
            ok = c.wait(timeout)
            self._l.acquire()
            if c in self._w:
                self._w.remove(c)
            shell.proc.free_fd(c.fd)
            return ok

        def wait_for(self, predicate, timeout=None):
            while not predicate():
                if not self.wait(timeout):
                    break
            return predicate()

        def notify(self, n=1):
            for c in self._w[:n]:
                c.value = 1
                c.changed()
                self._w.remove(c)

        def notify_all(self):
            self.notify(len(self._w))

    def current_thread():
        return shell.proc.node

    return Proxy(_threading, Thread=Thread, Semaphore=Semaphore,
                 BoundedSemaphore=Semaphore, Lock=Lock, RLock=RLock,
                 Event=Event, Condition=Condition,
                 current_thread=current_thread,
                 main_thread=lambda: shell.node,
                 get_ident=lambda: id(shell.proc.node))


class PipeFile:
    """os.fdopen() of an end of a pipe, unbuffered."""

    def __init__(self, shell, fd):
        self.shell, self.fd = shell, fd

    def fileno(self):
        return self.fd

    def read(self, n=-1):
        self.shell.preempt()
        try:
            return self.shell.proc.read(self.fd, n if n >= 0 else 1 << 20)
        except BlockingIOError:
            return None

    def write(self, data):
        n = self.shell.proc.write(self.fd, data)
        self.shell.preempt()
        return n

    def flush(self):
        pass

    def close(self):
        self.shell.proc.close_fd(self.fd)


class Terminal(io.TextIOBase):
    """Both standard streams."""

    def __init__(self, shell):
        self.shell = shell
        self.part = ''
        self.how = 'strict'

    encoding = 'utf-8'

    @property
    def errors(self):
        return self.how

    def reconfigure(self, errors=None, **kw):
        if errors is not None:
            self.how = errors

    def write(self, text):
        text.encode('utf-8', self.how)  # as a real one: may fail
        self.part += text
        while '\n' in self.part:
            line, self.part = self.part.split('\n', 1)
            self.shell.printed(line)
        self.shell.preempt()
        return len(text)

    def flush(self):
        pass

    def readline(self, *a):
        try:
            return self.shell.input() + '\n'
        except EOFError:
            return ''

    def isatty(self):
        return True


# ---------------------------------------------------------------------------
# what a command line means
# ---------------------------------------------------------------------------

class Command:
    def __init__(self, line, kind):
        self.line = line
        self.kind = kind        # req, local, error, quit, blank, gray
        self.rec = None
        self.out = []
        self.start = None
        self.bad = False        # the peer broke the protocol meanwhile
        self.what = None
        self.fields = None
        self.fresh = False      # the client chose the id
        self.sent = self.answered = None    # (ping)


class BadLine(Exception):
    pass


class GrayLine(Exception):
    pass


def number(s):
    if SIGNED.match(s):
        n = int(s)
        if 0 <= n <= INT_MAX:
            return n
    raise BadLine("%r is not a non-negative integer" % s)


def hexid(s):
    if re.match(r'^[+-]?(0[xX])?[0-9a-fA-F]+$', s):
        n = int(s, 16)
        if 0 <= n <= INT_MAX:
            return n
    raise BadLine("%r is not an id" % s)


def parse_props(args):
    if len(args) % 2:
        raise BadLine("odd number of arguments")
    props = {}
    for k, v in zip(args[::2], args[1::2]):
        if v in ('', '|'):
            pass
        elif v[0] == '|' and v[-1] == '|':
            v = v[1:-1]
        elif SIGNED.match(v):
            v = int(v)
            if abs(v) > INT_MAX:
                raise GrayLine()
        elif re.match(r'^[+-]?[0-9_]+$', v) or not v.isascii() and \
                v.strip().isdigit():
            raise GrayLine()
        props.setdefault(k, set()).add(v)
    return props


def parse_line(line, o):
    """The request a line stands for: (command, fields), or ('local', ...)."""
    line = line.strip()
    if not line:
        return 'blank', None
    if line == 'EOF':
        return 'quit', None
    m = re.match(r'^([A-Za-z0-9_]+)(.*)$', line, re.S)
    if line[0] in '?!' or not m:
        return 'gray', None
    word, rest = m.group(1), m.group(2).strip()
    simple = {'ping': {}, 'clients': {}, 'subscriptions': {}}
    if word in ('id', 'version', 'help', 'quit', 'hello') or word in simple:
        if rest and word != 'help':
            return 'gray', None         # (whether arguments are tolerated)
        if word == 'quit':
            return 'quit', None
        if word == 'hello':
            cm = o.cm
            return 'hello', {'client-id': cm.cid,
                             'protocol-minimum-version': cm.vrange[0],
                             'protocol-maximum-version': cm.vrange[1]}
        if word in simple:
            return word, {}
        return 'local', word
    if word not in ('services', 'subscribe', 'publish', 'unpublish',
                    'unsubscribe', 'track'):
        raise BadLine("unknown command")
    if word in ('unpublish', 'unsubscribe'):
        if not rest or ' ' in rest:
            raise BadLine("id")
        return word, {('service-id' if word == 'unpublish' else
                       'subscription-id'): hexid(rest)}
    try:
        args = shlex.split(rest)
    except ValueError:
        raise BadLine("quoting")
    if word == 'track':
        if not args:
            if o.tracker is not None:
                raise BadLine("tracked already")
            if o.cm.version < 3:
                raise BadLine("version 2")
            return 'track', {}
        if len(args) > 1 or args[0] not in ('query', 'verbose', 'quiet') or \
           o.tracker is None:
            raise BadLine("track")
        return 'track ' + args[0], None
    if word in ('services', 'subscribe'):
        if len(args) > 1:
            return 'gray', None
        f = {'filter': args[0]} if args else {}
        if word == 'subscribe':
            f['subscription-id'] = None
        return word, f
    if len(args) % 2:
        sid, args = hexid(args[0]), args[1:]
    else:
        sid = None
    if len(args) < 2:
        raise BadLine("missing arguments")
    gen, ttl = number(args[0]), number(args[1])
    props = parse_props(args[2:])
    if any(k == '' for k in props):
        raise GrayLine()
    return 'publish', {'service-id': sid, 'generation': gen,
                       'service-props': spec.props_key(props), 'ttl': ttl}


# ---------------------------------------------------------------------------
# oracle
# ---------------------------------------------------------------------------

ASYNC = re.compile(r'^(Subscription [0-9a-f]+(:| cancel)|.*track query|'
                   r'Tracking completed)', re.I)


def props_str(key):
    """Multiset of "'key': value" items, and their total length."""
    items = []
    for k, vs in key:
        for t, v in vs:
            items.append("'%s': '%s'" % (k, v) if t == 'str' else
                         "'%s': %d" % (k, v))
    return items


def same_props(text, key):
    text = text.strip()
    items = props_str(key)
    if not (text.startswith('{') and text.endswith('}')):
        return False
    body = text[1:-1]
    if len(body) != len(', '.join(items)):
        return False
    for it in sorted(items, key=len, reverse=True):
        if it not in body:
            return False
        body = body.replace(it, '', 1)
    return not body.strip(', ')


class ShellOracle(ClientOracle):
    def __init__(self, run, node, shell):
        ClientOracle.__init__(self, run, node)
        self.shell = shell
        self.cm = None
        self.refused = False
        self.cur = None
        self.asyncq = deque()
        self.tracker = None
        self.pending_tracker = None
        self.verbose = False
        self.queries = deque()
        self.subs = []          # subscription ids in order of creation
        self.svcs = []
        self.prompts = 0
        self.lost_at = None
        self.connected = False
        self.said = []
        self.done_at = None

    def fail(self, code, text, tags=()):
        self.sim.violate(code, {'P21'} | set(tags),
                         "%s: %s" % (self.node.name, text))
        raise SimKill()

    def no_due(self, when):
        pass

    # -- the terminal ----------------------------------------------------------
    def prompt(self):
        """The shell asks for the next line."""
        self.prompts += 1
        cur, self.cur = self.cur, None
        if cur is not None:
            self.finished(cur)
        elif self.prompts == 1:
            cm = self.cm
            if cm is None or (cm.version is None and not cm.gray):
                self.fail('false-success', "pafc prompts for commands though "
                          "the server has not answered hello")

    def line(self, text):
        cm = self.cm
        self.sim.log('LINE', self.node.name, text)
        self.cur = cur = Command(text, 'req')
        cur.start = self.sim.now
        cur.version = cm.version
        try:
            what, fields = parse_line(text, self)
        except BadLine as e:
            cur.kind = 'error'
            cur.what = str(e)
            self.sim.probe('shell-bad-line')
            return
        except GrayLine:
            what = 'gray'
        cur.what = what
        if what in ('gray', 'blank', 'quit', 'local'):
            cur.kind = what
            cur.fields = fields if what == 'local' else None
            if what == 'gray':
                raise HarnessError("gray command line %r" % text)
            return
        self.sim.probe('shell-' + what)
        if what.startswith('track '):
            cur.kind = 'local'
            cur.fields = what
            if what == 'track query':
                cur.rec = self.tracker
                if not self.blind():
                    cm.outq.append((self.tracker, 'inform',
                                    {'track-type': 'query'}))
                    self.queries.append([self.sim.now, None])
            elif self.verbose is not (what == 'track verbose'):
                self.verbose = None         # until it is done
            return
        cur.rec = rec = Rec(what, fields, internal='shell')
        rec.rows = []
        if what == 'track':
            rec.internal = 'tracker'
            self.pending_tracker = rec
        if not self.blind():
            cm.outq.append((rec, 'request', fields))

    def blind(self):
        return bool(self.cm.gray or self.cm.must)

    def output(self, line):
        self.sim.log('PRINT', self.node.name, line)
        self.said.append(line)
        cm = self.cm
        if not line.strip():
            return
        if ASYNC.match(line):
            if cm is None or cm.gray:
                return
            if not self.asyncq:
                if self.cur is not None and self.cur.kind in ('local',):
                    self.cur.out.append(line)
                    return
                self.fail('wrong-notification', "printed without a reason: "
                          "%r" % line)
            want = self.asyncq.popleft()
            bad = self.match_async(want, line)
            while bad and want[0] == 'maybe' and self.asyncq:
                want = self.asyncq.popleft()
                bad = self.match_async(want, line)
            if bad:
                self.fail('wrong-notification', "printed %r, but %s" %
                          (line, bad))
            return
        if self.cur is not None:
            self.cur.out.append(line)
            return
        if self.prompts and not self.blind():
            self.fail('stray-output', "printed out of nowhere: %r" % line)

    def match_async(self, want, line):
        kind = want[0]
        if kind == 'canceled':
            if not re.match(r'^Subscription %x cancel' % want[1], line):
                return "subscription %x was cancelled" % want[1]
        elif kind in ('responded', 'maybe'):
            if 'espond' not in line:
                return "a track query was answered"
        elif kind == 'reply':
            m = re.search(r'reply.* ([0-9.]+) ms', line)
            if not m:
                return "a track reply was received"
            asked, done, t = want[1]
            lat = float(m.group(1)) / 1e3
            least = 0.0 if done is None else t - done
            most = self.sim.now - asked
            if not least - 0.0001 < lat < most + 0.0001:
                return "the reply took %.1f to %.1f ms" % (least * 1e3,
                                                           most * 1e3)
        elif kind == 'unsolicited':
            if 'WARNING' not in line:
                return "an unsolicited track reply was received"
        else:
            return self.match_match(want, line)

    def match_match(self, want, line):
        _, sub_id, f, t = want
        exp = "subscription %x was notified of %r" % (sub_id, f)
        m = re.match(r'^Subscription ([0-9a-f]+): (.*)$', line, re.S)
        if not m or int(m.group(1), 16) != sub_id:
            return exp
        rest, got = m.group(2), {}
        m = re.search(r'(^|; )Properties: (.*)$', rest, re.S)
        if m:
            got['Properties'] = m.group(2)
            rest = rest[:m.start()]
        for part in rest.split('; '):
            k, _, v = part.partition(': ')
            got[k] = v
        exp_keys = {'Match type': f['match-type'],
                    'Service id': '%x' % f['service-id']}
        if 'generation' in f:
            exp_keys['Generation'] = '%d' % f['generation']
        if 'ttl' in f:
            exp_keys['TTL'] = '%d' % f['ttl']
        if 'client-id' in f:
            exp_keys['Client Id'] = '0x%x' % f['client-id']
        for k, v in exp_keys.items():
            if got.pop(k, None) != v:
                return exp
        if 'service-props' in f and not same_props(
                got.pop('Properties', ''), f['service-props']):
            return exp
        if f.get('orphan-since') is not None and 'ttl' in f:
            m = re.match(r'^(-?[0-9.]+) s', got.pop('Orphan', ''))
            if not m:
                return exp
            left = f['orphan-since'] + f['ttl'] - self.sim.wall()
            if abs(float(m.group(1)) - left) > 0.06 + (self.sim.now - t):
                return exp
        if got:
            return exp + ' and no more'

    # -- commands ---------------------------------------------------------------
    def finished(self, cur):
        cm = self.cm
        out = [x.strip() for x in cur.out if x.strip()]
        ok = 'OK.' in out
        out = [x for x in out if x != 'OK.']
        self.done_at = None
        if self.cm.gray and not cur.bad:
            return
        if cur.kind == 'blank':
            if cur.out:
                self.fail('stray-output', "empty line answered %r" % cur.out)
            return
        if cur.kind == 'error':
            if ok:
                self.fail('error-accepted', "%r is reported OK" % cur.line)
            if not out:
                self.fail('silent-error', "%r is not answered" % cur.line)
            return
        if cur.kind == 'quit':
            self.fail('quit-ignored', "%r does not end pafc" % cur.line)
        if cur.kind == 'local':
            self.local_done(cur, ok, out)
            return
        rec = cur.rec
        good = rec.state == 'done' or \
            rec.state == 'accepted' and rec.cmd in ('subscribe', 'track')
        if good and not cur.bad:
            if not ok and cm.must and out:
                return              # (lost before it could be reported)
            if not ok:
                self.fail('success-denied', "%r succeeded but is not "
                          "reported so: %r" % (cur.line, cur.out))
            self.sim.probe('shell-ok')
            bad = self.check_output(cur, rec, out)
            if bad:
                self.fail('wrong-output', "%r printed %r, but %s" %
                          (cur.line, out, bad))
            return
        if ok:
            self.fail('false-success', "%r is reported OK although %s" %
                      (cur.line, "it failed" if rec.state == 'failed' else
                       "the server has not confirmed it"))
        if rec.state == 'failed' and not cur.bad:
            self.sim.probe('shell-fail')
            if cm.must and out:
                return              # (lost before it could be reported)
            if rec.reason != '' and (not out or rec.reason is not None and
                                     not any(rec.reason in x for x in out)):
                self.fail('reason-hidden', "%r failed (%s), printed: %r" %
                          (cur.line, rec.reason, out))
            return
        if not (cm.must or cur.bad):
            self.fail('early-return', "%r has not been answered, but pafc "
                      "asks for the next command" % cur.line)
        if not out:
            self.fail('silent-error', "%r failed (%s) without a message" %
                      (cur.line, cm.must))

    def local_done(self, cur, ok, out):
        what, cm = cur.fields, self.cm
        text = '\n'.join(out)
        bad = None
        if what == 'id':
            if not re.search(r'(^|[^0-9a-f])(0x)?%x($|[^0-9a-f])' % cm.cid,
                             text):
                bad = "the client id is %x" % cm.cid
        elif what == 'version':
            if not re.search(r'Used: %d' % cm.version, text) or \
               not re.search(r'Advertised: %d-%d' % cm.vrange, text):
                bad = "version %d was agreed" % cm.version
        elif what == 'help':
            if not out:
                bad = "no help was given"
        elif not ok and not cm.must:
            bad = "it did succeed"
        elif what == 'track query':
            if self.queries:
                self.queries[-1][1] = self.sim.now
        else:
            self.verbose = what == 'track verbose'
        if bad:
            self.fail('wrong-output', "%r printed %r, but %s" %
                      (cur.line, cur.out, bad))

    def check_output(self, cur, rec, out):
        if rec.cmd == 'ping':
            took = self.sim.now - cur.start
            m = re.search(r'([0-9.]+) *ms', '\n'.join(out))
            if not m:
                return "there is no latency"
            if float(m.group(1)) > took * 1e3 + 0.06:
                return "it took %.1f ms at most" % (took * 1e3)
            if cur.sent is not None and cur.answered is not None:
                took = cur.answered - cur.sent
                if float(m.group(1)) < took * 1e3 - 0.06:
                    return "it took %.1f ms at least" % (took * 1e3)
        elif rec.cmd == 'hello':
            v = rec.complete['protocol-version']
            if not re.search(r'\b%d\b' % v, '\n'.join(out)):
                return "version %d was agreed" % v
        elif rec.cmd == 'subscribe':
            if not re.search(r'(^|[^0-9a-f])%x($|[^0-9a-f])' %
                             rec.fields['subscription-id'], '\n'.join(out)):
                return "the subscription id is %x" % \
                    rec.fields['subscription-id']
        elif rec.cmd == 'publish':
            if cur.fresh and not re.search(
                    r'(^|[^0-9a-f])%x($|[^0-9a-f])' %
                    rec.fields['service-id'], '\n'.join(out)):
                return "the service id is %x" % rec.fields['service-id']
        elif rec.cmd in ('services', 'clients', 'subscriptions'):
            rows = list(out)
            first = min((i for i, r in enumerate(rows)
                         if re.search(r'\bid\b', r, re.I)), default=None)
            if first is None:
                return "there is no heading"
            rows = rows[first + 1:]
            # (the other thread may report the end of the connection)
            if len(rows) - len(rec.rows) not in (
                    (0, 1) if self.cm.must else (0,)):
                return "there are %d entries" % len(rec.rows)
            fn = getattr(self, 'row_' + rec.cmd)
            for f, t in rec.rows:
                for i, r in enumerate(rows):
                    if fn(r, f, t):
                        del rows[i]
                        break
                else:
                    return "there is an entry %r" % f
        return None

    def row_services(self, row, f, t):
        p = row.split(None, 5)
        if len(p) != 6:
            return False
        since = f.get('orphan-since')
        if since is None:
            if p[3] != '-':
                return False
        else:
            try:
                left = float(p[3])
            except ValueError:
                return False
            exp = since + f['ttl'] - self.sim.wall()
            if abs(left - exp) > 0.06 + self.sim.now - t:
                return False
        return (p[0] == '%x' % f['service-id'] and
                p[1] == '%d' % f['generation'] and p[2] == '%d' % f['ttl'] and
                p[4] == '%x' % f['client-id'] and
                same_props(p[5], f['service-props']))

    def row_subscriptions(self, row, f, t):
        p = (row + ' ').split(None, 2)
        p += [''] * (3 - len(p))
        return ( p[0] == '%x' % f['subscription-id'] and
                p[1] == '%x' % f['client-id'] and
                p[2].strip() == f.get('filter', '-').strip())

    def row_clients(self, row, f, t):
        p = row.split(None, 1)
        if len(p) < 2 or p[0] != '%x' % f['client-id'] or \
           not p[1].startswith(f['client-address']):
            return False
        row = p[1][len(f['client-address']):]
        if not row[:1].isspace():
            return False
        p = row.split()
        m = re.search(r'(?:(-?\d+) days?, )?(\d+):(\d\d):(\d\d)', row)
        if not m:
            return False
        up = int(m.group(1) or 0) * 86400 + int(m.group(2)) * 3600 + \
            int(m.group(3)) * 60 + int(m.group(4))
        if abs(up - (self.sim.wall() - f['time'])) > 0.51 + self.sim.now - t:
            return False
        if 'idle' in f:
            lat = p[-2]
            if 'latency' in f:
                try:
                    if abs(float(lat) - f['latency'] * 1e3) > 0.051:
                        return False
                except ValueError:
                    return False
            elif lat != '-':
                return False
            try:
                if abs(float(p[-3]) - f['idle']) > 0.00051:
                    return False
            except ValueError:
                return False
            return p[-1] == '%d' % f['protocol-version']
        return True

    # -- transport ----------------------------------------------------------------
    def check_target(self, addr, attrs):
        want = self.shell.conf.get('target')
        if want is None or addr != want[0]:
            self.fail('wrong-server', "pafc connects to %s instead of %s" %
                      (addr, want and want[0]))
        for k, v in want[1].items():
            if attrs.get(k) != v:
                self.fail('wrong-server', "attribute %s is %r instead of %r" %
                          (k, attrs.get(k), v))
        for k in attrs:
            if k.startswith('tls.') and k not in want[1]:
                self.fail('wrong-server', "attribute %s is %r, which is not "
                          "configured for this server" % (k, attrs[k]))
        return want

    def on_refused(self, addr, attrs):
        self.refused = True
        self.check_target(addr, attrs)

    def on_connect(self, end):
        if self.connected:
            self.fail('stray-connection', "a second connection is opened")
        self.connected = True
        want = self.check_target(end.link.addr, end.attrs)
        cm = ConnModel(self, self.shell.conf.get('cid'), tuple(want[2]),
                       False, None)
        cm.end = end
        self.cm = cm
        self.conns[end.link.name] = cm
        rec = Rec('hello', {'client-id': cm.cid,
                            'protocol-minimum-version': want[2][0],
                            'protocol-maximum-version': want[2][1]},
                  internal='hello')
        cm.outq.append((rec, 'request', rec.fields))

    FREE = {'publish': 'service-id', 'subscribe': 'subscription-id',
            'hello': 'client-id'}

    def on_out(self, proc, end, data):
        cm = self.cm
        if len(cm.outq) > 1 and not self.blind():
            # replies to queries and what the user asks for are independent
            auto = b'"inform"' in data and b'"reply"' in data
            for i, x in enumerate(cm.outq):
                if auto == (x[2].get('track-type') == 'reply'):
                    del cm.outq[i]
                    cm.outq.appendleft(x)
                    break
        if cm.outq and not self.blind():
            rec, mtype, fields = cm.outq[0]
            k = self.FREE.get(rec.cmd)
            if mtype == 'request' and k and fields.get(k, 0) is None:
                # an id of the client's choice
                try:
                    m = spec.parse_client_message(data, cm.version or 3)
                    v = m[3][k]
                except (spec.Bad, spec.Gray, KeyError, TypeError):
                    v = 0
                fields[k] = v
                if rec.cmd == 'hello':
                    cm.cid = v
                if rec.cmd == 'publish' and self.cur is not None:
                    self.cur.fresh = True
                if v in self.svcs or v in self.subs:
                    self.fail('id-reused', "id %x is used again" % v)
            if mtype == 'request' and rec.cmd == 'publish':
                self.svcs.append(fields['service-id'])
        ClientOracle.on_out(self, proc, end, data)
        if self.cur is not None and b'"ping"' in data:
            self.cur.sent = self.sim.now

    def on_rxend(self, proc, end, why):
        ClientOracle.on_rxend(self, proc, end, why)
        if self.lost_at is None:
            self.lost_at = self.sim.now

    def on_txerr(self, proc, end, err):
        ClientOracle.on_txerr(self, proc, end, err)
        if self.lost_at is None:
            self.lost_at = self.sim.now

    def on_in(self, proc, end, data):
        cm = self.cm
        if self.cur is not None and b'"ping"' in data:
            self.cur.answered = self.sim.now
        before = cm.must
        res = self.take(cm, data)
        if cm.must and not before:
            self.peer_broke(cm)
        if res is not None:
            self.taken(cm, *res)
            if cm.must and not before:
                self.peer_broke(cm)

    def peer_broke(self, cm):
        """What follows is pafc's choice, except for claiming success."""
        if cm.version is None:
            return
        cm.gray = cm.must
        if self.cur is not None and self.cur.kind == 'req' and \
           self.cur.rec.state in ('requesting', 'accepted'):
            self.cur.bad = self.cur.rec.cmd not in ('subscribe', 'track') or \
                self.cur.rec.state == 'requesting'
        self.asyncq.clear()

    def taken(self, cm, rec, ev, payload, f):
        now = self.sim.now
        if rec.internal == 'hello':
            ClientOracle.taken(self, cm, rec, ev, payload, f)
            return
        if rec.internal == 'tracker':
            if ev == 'ACCEPT':
                self.tracker = rec
            if ev == 'NOTIFY':
                if f['track-type'] == 'query':
                    cm.outq.append((rec, 'inform', {'track-type': 'reply'}))
                    self.sim.probe('shell-tracker-query')
                    if self.verbose:
                        self.asyncq.append(('responded',))
                    elif self.verbose is None:
                        self.asyncq.append(('maybe',))
                elif f['track-type'] == 'reply':
                    if self.queries:
                        q = self.queries.popleft()
                        self.asyncq.append(('reply', q + [now]))
                    else:
                        self.asyncq.append(('unsolicited',))
                else:
                    cm.gray = "unknown track type"
            return
        if rec.cmd == 'subscribe':
            sub_id = rec.fields['subscription-id']
            if ev == 'ACCEPT':
                self.subs.append(sub_id)
            if ev == 'NOTIFY':
                if f['match-type'] not in ('appeared', 'modified',
                                           'disappeared'):
                    cm.gray = "unknown match type"
                    return
                if f.get('orphan-since') is not None and 'ttl' not in f:
                    cm.gray = "an orphan without its mandatory TTL"
                    return
                self.asyncq.append(('match', sub_id, f, now))
                self.sim.probe('shell-notification')
            elif ev == 'COMPLETE':
                self.asyncq.append(('canceled', sub_id))
        elif ev == 'NOTIFY':
            rec.rows.append((f, now))
        if self.cur is not None and self.cur.rec is rec and (
                ev in ('COMPLETE', 'FAIL') or ev == 'ACCEPT' and
                rec.cmd in ('subscribe', 'track')):
            self.done_at = now

    # -- sleeping -----------------------------------------------------------------
    def poll_enter(self, proc, timeout, waiter):
        self.turns += 1
        cm = self.cm
        if cm is None or waiter.ready():
            return
        end = cm.end
        if end.closed or cm.gray:
            return
        if cm.must:
            self.fail('does-not-end', "pafc goes on although %s" % cm.must)
        if not end.cond & RECEIVABLE or end.fd not in waiter.masks:
            self.fail('client-deaf', "pafc sleeps without waiting for "
                      "messages from the server")
        if cm.outq and not end.cond & SENDABLE:
            self.fail('not-sent', "pafc sleeps although a %s message of %s is "
                      "unsent" % (cm.outq[0][1], cm.outq[0][0].cmd))
        while self.asyncq and self.asyncq[0][0] == 'maybe':
            self.asyncq.popleft()
        if self.asyncq:
            self.fail('notification-lost', "pafc sleeps without having "
                      "printed %r" % (self.asyncq[0],))


# ---------------------------------------------------------------------------
# the process
# ---------------------------------------------------------------------------

class ShellNode(ClientNode):
    def __init__(self, run, name, conf):
        ClientNode.__init__(self, run, name, conf)
        sim, net, proc = run.sim, run.net, self.proc
        self.sim = sim
        node = self.node
        node.role = 'shell'
        node.shared = proc
        self.oracle = ShellOracle(run, node, self)
        proc.observer = self.oracle
        self.threads = []
        self.lines = deque()
        self.prng = sim.rng('preempt/' + name)
        self.preempt_p = conf.get('preempt', 0.0)
        self.stdin = Cell(self)
        self.term = Terminal(self)
        self.keys = Terminal(self)
        self.status = None
        inst = self.inst
        inst.fakes['threading'] = make_threading(self)
        inst.fakes['os'] = self.make_os(inst.fakes['os'])
        inst.fakes['sys'] = Proxy(
            sys, argv=['pafc'] + list(conf.get('args', [])),
            stdin=self.keys, stdout=self.term, stderr=self.term)
        sig = inst.fakes['signal'].__dict__
        sig['pthread_sigmask'] = lambda *a: set()
        b = inst.builtins
        b['input'] = self.input
        b['print'] = self.do_print
        b['open'] = self.open
        real_import = b['__import__']

        def imp(name, globals=None, locals=None, fromlist=(), level=0):
            if name == 'readline':
                raise ImportError(name)
            if name == 'cmd':
                return self.private('cmd', _cmd.__file__)
            if name == 'queue':
                import queue
                return self.private('queue', queue.__file__)
            return real_import(name, globals, locals, fromlist, level)
        b['__import__'] = imp
        self.mods = {}

    def private(self, name, path):
        mod = self.mods.get(name)
        if mod is None:
            mod = self.mods[name] = types.ModuleType(name)
            mod.__dict__['__builtins__'] = self.inst.builtins
            mod.__file__ = path
            exec(_source(path), mod.__dict__)
        return mod

    def make_os(self, base):
        files = self.conf.get('files', {})
        d = self.conf.get('dir', '/run/paf/domains.d')

        def listdir(path='.'):
            if os.path.normpath(path) != d:
                raise FileNotFoundError(E.ENOENT, 'No such file', path)
            return sorted(files) + ['sub']

        def inside(p):
            return os.path.normpath(os.path.dirname(p)) == d and \
                os.path.basename(p)
        path = Proxy(os.path, isfile=lambda p: inside(p) in files,
                     exists=lambda p: inside(p) in files or
                     os.path.normpath(p) == d,
                     isdir=lambda p: os.path.normpath(p) == d or
                     inside(p) == 'sub')
        over = dict(base.__dict__)
        over.pop('_real', None)
        over.pop('__name__', None)
        over.update(
            listdir=listdir, path=path, kill=self.kill, _exit=self.os_exit,
            fdopen=lambda fd, *a, **kw: PipeFile(self, fd),
            environ=dict(self.conf.get('env', {})),
            getenv=lambda k, dflt=None: self.conf.get('env', {}).get(k, dflt))
        return Proxy(os, **{k: v for k, v in over.items()
                            if not k.startswith('__')})

    def open(self, path, *a, **kw):
        files = self.conf.get('files', {})
        d = self.conf.get('dir', '/run/paf/domains.d')
        name = os.path.basename(path)
        if os.path.normpath(os.path.dirname(path)) == d and name in files:
            return io.StringIO(files[name])
        raise FileNotFoundError(E.ENOENT, "No such file or directory", path)

    # -- scheduling -----------------------------------------------------------
    def preempt(self):
        """A point at which the other thread may get to run."""
        if self.preempt_p and self.prng.random() < self.preempt_p and \
           not self.proc.dead and not self.sim.ended:
            self.sim.count('fault:thread-preempted')
            Waiter(self.proc, {}, self.prng.choice([0.001, 0.001, 0.003])
                   ).block()

    def start_thread(self, thread):
        def main(node):
            try:
                thread.run()
            except SimKill:
                raise
            except OsExit:
                raise
            except SystemExit:
                pass
            finally:
                thread._done.value = 1
                thread._done.changed()
        node = Node(self.sim, "%s-t%d" % (self.name, len(self.threads) + 1),
                    main)
        node.role = 'shell-thread'
        node.client = self
        node.proc = self.proc
        node.shared = self.proc
        self.threads.append((thread, node))
        self.sim.spawn(node)

    # -- the terminal -----------------------------------------------------------
    def input(self, prompt=''):
        self.oracle.prompt()
        self.preempt()
        self.stdin.wait()
        text = self.lines.popleft()
        if not self.lines:
            self.stdin.value = 0
        if text is None:
            self.oracle.line('EOF')
            raise EOFError()
        o = self.oracle

        def sub(m):
            ids = o.subs if m.group(1) == 'SUB' else o.svcs
            if not ids:
                return 'f' * 6
            return '%x' % ids[int(m.group(2)) % len(ids)]
        text = re.sub(r'%(SUB|SVC)(\d+)%', sub, text)
        # a terminal delivers bytes, which may not be valid UTF-8
        try:
            raw = text.encode('utf-8', 'surrogateescape')
        except UnicodeEncodeError:
            raw = text.encode('utf-8', 'surrogatepass')
        text = raw.decode('utf-8', self.keys.how)
        o.line(text)
        return text

    def post_line(self, text):
        self.lines.append(text)
        self.stdin.value = 1
        self.sim.dirty = True

    def do_print(self, *args, sep=' ', end='\n', file=None, flush=False):
        (file or self.term).write((sep or ' ').join(map(str, args)) +
                                  ('\n' if end is None else end))

    def printed(self, line):
        self.oracle.output(line)

    # -- the end ------------------------------------------------------------------
    def os_exit(self, code):
        raise OsExit(code)

    def kill(self, pid, signo):
        if pid != self.proc.pid:
            raise ProcessLookupError(E.ESRCH, 'No such process')
        h = self.proc.handlers.get(signo, _signal.SIG_DFL)
        if h not in (_signal.SIG_DFL, None):
            self.proc.deliver_signal(signo)
            return
        self.ended('signal', signo)
        raise SimKill()

    def take_down(self):
        """All threads but the calling one vanish."""
        self.exited = True
        self.proc.kill_cleanup()
        for node in [self.node] + [n for _, n in self.threads]:
            if node is not self.proc.node and node.state != 'dead':
                self.sim.kill(node)

    def ended(self, how, what):
        if self.exited:
            return
        self.status = (how, what)
        self.sim.log('SHELL-END', self.name, how, what)
        self.take_down()
        o, cm = self.oracle, self.oracle.cm
        self.sim.probe('shell-end-' + how)
        if how == 'signal':
            if cm is None or not (cm.must or cm.gray):
                o.fail('died', "pafc ends though nothing is wrong with the "
                       "connection (printed last: %r)" % o.said[-3:])
            return
        if o.prompts == 0:
            self.check_start(what)
            return
        if how == 'exit' and (o.cur is not None and o.cur.kind == 'quit'):
            if what not in (0, None):
                o.fail('bad-status', "pafc exits with status %r after quit" %
                       (what,))
            return
        if cm.must or cm.gray:
            return
        o.fail('died', "pafc ends at %r though nothing is wrong with the "
               "connection (printed last: %r)" %
               (o.cur.line if o.cur else None, o.said[-3:]))

    def check_start(self, status):
        """pafc has ended without ever asking for a command."""
        o, cm, conf = self.oracle, self.oracle.cm, self.conf
        lists = conf.get('lists')
        text = [x.strip() for x in o.said if x.strip()]
        if lists is not None:
            if status not in (0, None) or sorted(text) != sorted(lists):
                o.fail('wrong-listing', "%s printed %r (status %r), but there "
                       "are %r" % (conf['args'], text, status, lists))
            return
        if conf.get('target') is None:
            if status in (0, None) or not text:
                o.fail('bad-status', "%s ends with status %r, printing %r" %
                       (conf['args'], status, text))
            return
        if not (cm.must or cm.gray if cm is not None else o.refused):
            o.fail('died', "pafc does not start though nothing is wrong with "
                   "the connection (printed: %r)" % text)
        if status in (0, None):
            o.fail('bad-status', "status %r though no connection could be "
                   "established" % (status,))
        if not text:
            o.fail('silent-error', "no message though no connection could be "
                   "established")

    def main(self, node):
        mod = types.ModuleType('__main__')
        path = os.path.join(loader.REPO, 'app', 'pafc')
        mod.__file__ = path
        mod.__dict__['__builtins__'] = self.inst.builtins
        self.inst.fakes['sys'].__dict__['modules'] = dict(
            sys.modules, __main__=mod)
        how, what = 'exit', 0
        try:
            exec(_source(path), mod.__dict__)
        except OsExit as e:
            self.ended('exit', e.code)
            return
        except SystemExit as e:
            what = e.code
        except SimKill:
            raise
        except HarnessError:
            raise
        except BaseException as e:          # noqa: B902
            import traceback
            self.sim.crash_text = traceback.format_exc()
            if 'HarnessError' in self.sim.crash_text:
                raise
            self.oracle.said.append(repr(e))
            if not (self.oracle.cm and (self.oracle.cm.must or
                                        self.oracle.cm.gray)) and \
               self.oracle.prompts:
                self.oracle.fail(
                    'shell-crashed', "%r raised %r" %
                    (self.oracle.cur.line if self.oracle.cur else None, e))
            how, what = 'raised', 1
        # the interpreter waits for the other threads
        for thread, n in self.threads:
            if not thread.daemon and n.state != 'dead':
                thread.join()
        self.ended(how, what)


class ShellRun(NodeRun):
    def op_shell(self, name, conf):
        if name in self.nodes:
            return
        c = ShellNode(self, name, conf)
        self.nodes[name] = c
        self.sim.spawn(c.node)

    def op_line(self, name, *lines):
        c = self.nodes.get(name)
        if c is not None and not c.exited:
            for text in lines:
                c.post_line(text)

    def on_exit(self, node, status):
        role = getattr(node, 'role', None)
        if role == 'shell':
            if status[0] == 'raised':
                self.sim.harness_error(status[1])
            return
        if role == 'shell-thread':
            c = node.client
            if status[0] == 'exit' and isinstance(status[1], int) and \
               not c.exited:
                c.ended('exit', status[1])
            elif status[0] == 'raised':
                if isinstance(status[1], HarnessError):
                    self.sim.harness_error(status[1])
                elif not c.exited and not c.oracle.blind():
                    self.sim.violate('thread-died', ['P21'],
                                     "a thread of pafc ends with %r" %
                                     (status[1],))
            return
        NodeRun.on_exit(self, node, status)

    def op_ncrash(self, name, vanish=0):
        c = self.nodes.get(name)
        if c is None or c.exited:
            return
        self.sim.count('fault:client-crash')
        self.crash_links(c.links, 1, vanish)
        c.exited = True
        c.proc.kill_cleanup()
        for n in [c.node] + [n for _, n in c.threads]:
            self.sim.kill(n)

    def op_sleepshell(self, name, d):
        c = self.nodes.get(name)
        if c is not None:
            for n in [c.node] + [n for _, n in c.threads]:
                self.net.forced_stall[n.name] = d

    # -- the end ------------------------------------------------------------------
    def calm(self):
        NodeRun.calm(self)
        for c in self.nodes.values():
            c.preempt_p = 0.0
        for link in self.net.links:
            link.lat = [0.0002, 0.002]
            link.window = [10 ** 9, 10 ** 9]
        self.looks = {}

    def busy(self, name):
        """Has this pafc got on since the last look?  It may have a long
        backlog of typed commands and notifications to work through."""
        c = self.nodes[name]
        now = (len(c.lines), len(c.oracle.said), c.oracle.prompts,
               [(len(x.rx[1]), len(x.flight[0]), x.sent_total)
                for x in c.links])
        was, self.looks[name] = self.looks.get(name), now
        return was != now

    def plan_end(self, t):
        sim = self.sim
        sim.at(t, lambda: self.calm() and None)
        sim.at(t + 3.0, lambda: self.stage2() and None)

    def stage2(self):
        if any([self.busy(name) for name in sorted(self.nodes)
                if not self.nodes[name].exited]):
            self.looks['n'] = self.looks.get('n', 0) + 1
            if self.looks['n'] < 40:
                self.sim.after(2.0, lambda: self.stage2() and None)
                return
        for name in sorted(self.nodes):
            c = self.nodes[name]
            o = c.oracle
            if c.exited:
                continue
            if o.cm is not None and o.cm.must and not o.cm.gray and \
               self.sim.now - (o.lost_at or 0) > 1.0:
                self.sim.violate('does-not-end', ['P21'], "%s still runs "
                                 "although %s" % (name, o.cm.must))
                return
            if o.cur is not None and o.done_at is not None and \
               self.sim.now - o.done_at > 1.0 and not o.cm.gray:
                self.sim.violate('stuck', ['P21'], "%s: %r was answered %.1f "
                                 "s ago, but pafc does not ask for the next "
                                 "command" % (name, o.cur.line,
                                              self.sim.now - o.done_at))
                return
            if o.cur is not None and o.cur.kind in ('local', 'error') and \
               self.sim.now - o.cur.start > 2.5 and not o.cm.gray:
                self.sim.violate('stuck', ['P21'], "%s: %r never ends" %
                                 (name, o.cur.line))
                return
            self.op_line(name, None)
        self.sim.after(1.5, lambda: self.stage3() and None)

    def stage3(self):
        left = [name for name in sorted(self.nodes)
                if not (self.nodes[name].exited or
                        self.hopeless(self.nodes[name].oracle))]
        if any([self.busy(name) for name in left]):
            self.looks['m'] = self.looks.get('m', 0) + 1
            if self.looks['m'] < 40:
                self.sim.after(1.5, lambda: self.stage3() and None)
                return
        for name in left:
            self.sim.violate('no-exit', ['P21'], "%s does not end after the "
                             "end of its input" % name)
            return
        self.sim.probe('final-phase')
        self.close_all()
        if self.server is not None and self.server.up():
            NodeRun.op_signal(self, _signal.SIGTERM)
            self.sim.after(1.0, lambda: self.sim.end() and None)
        else:
            self.sim.end()

    def hopeless(self, o):
        """A command waits for an answer that a scripted peer never gives."""
        if o.cm is None:
            return bool(self.stubs)
        if o.cm.gray:
            return True
        if not self.stubs:
            return False
        return o.cm.version is None or \
            (o.cur is not None and o.cur.kind == 'req' and
             o.cur.rec.state in ('requesting', 'accepted'))


def execute(scn, hang_cpu_s=10.0):
    run = ShellRun(scn)
    res = run.execute(hang_cpu_s)
    run.result = res
    return run
