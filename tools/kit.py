"""Small stand-in for libxcm, epoll and the clock, to demonstrate a bug.

The real server code of the current directory (/repo) runs in this process on
a simulated transport and clock.  A demonstration is a generator function; each
"yield t" lets t simulated seconds pass.

    import kit
    def demo(k):
        a = k.client('a')
        a.hello(1)
        yield 0.1
        assert a.last('complete')
    kit.main(demo)
"""

import collections
import ctypes
import errno
import json
import logging
import logging.handlers
import os
import random
import select
import sys
import time

sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())

REC, SND, ACC = 1, 2, 4


class Done(BaseException):
    pass


class World:
    def __init__(self):
        self.now = 1700000000.0
        self.mono = 100.0
        self.err = 0
        self.h = {}
        self.nexth = 4096
        self.listeners = {}
        self.free_fds = []
        self.nextfd = 1000
        self.calls = 0

    def fd(self):
        # the lowest free descriptor, as in a real process
        if self.free_fds:
            self.free_fds.sort()
            return self.free_fds.pop(0)
        self.nextfd += 1
        return self.nextfd

    def handle(self, obj):
        self.nexth += 16
        self.h[self.nexth] = obj
        obj.fd = self.fd()
        obj.cond = 0
        return self.nexth


W = World()


class Listener:
    def __init__(self, addr):
        self.addr = addr
        self.backlog = collections.deque()
        self.accept_errors = collections.deque()

    def ready(self):
        return self.cond & ACC and (self.backlog or self.accept_errors)


class Conn:
    """The server's end."""

    def __init__(self, client):
        self.c = client
        self.rx = collections.deque()
        self.end = None

    def ready(self):
        c = self.c
        if self.cond & REC and (self.rx or self.end is not None):
            return True
        return bool(self.cond & SND and
                    (c.window is None or len(c.unread) < c.window
                     or self.end is not None))


class CFun:
    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a):
        return self.fn(*a)


def _s(x):
    return x.decode() if isinstance(x, bytes) else x.value.decode()


class Lib:
    def __init__(self):
        for n in dir(type(self)):
            if n.startswith('xcm_'):
                setattr(self, n, CFun(getattr(self, n)))

    def fail(self, e, rc=-1):
        W.err = e
        return rc

    def xcm_attr_map_create(self):
        return 1

    def xcm_attr_map_destroy(self, m):
        pass

    xcm_attr_map_add_bool = xcm_attr_map_add_int64 = xcm_attr_map_add_str = \
        lambda self, m, n, v: None

    def xcm_server_a(self, addr, attrs):
        addr = _s(addr)
        lst = Listener(addr)
        W.listeners[addr] = lst
        return W.handle(lst)

    def xcm_connect_a(self, addr, attrs):
        return self.fail(errno.ECONNREFUSED, None)

    def xcm_accept_a(self, h, attrs):
        lst = W.h[h]
        if lst.accept_errors:
            return self.fail(lst.accept_errors.popleft(), None)
        if not lst.backlog:
            return self.fail(errno.EAGAIN, None)
        c = lst.backlog.popleft()
        conn = Conn(c)
        c.conn = conn
        for m in c.early:
            conn.rx.append(m)
        if c.ended:
            conn.end = c.ended
        c.accepted_at = W.now
        return W.handle(conn)

    def xcm_close(self, h):
        o = W.h.pop(h)
        for e in EPOLLS:
            e.regs.pop(o.fd, None)
        W.free_fds.append(o.fd)
        if isinstance(o, Conn):
            o.c.closed = True
            o.c.closed_at = W.now
        else:
            W.listeners.pop(o.addr, None)
        return 0

    def xcm_finish(self, h):
        W.h[h]
        return 0

    def xcm_await(self, h, cond):
        W.h[h].cond = cond
        return 0

    def xcm_fd(self, h):
        return W.h[h].fd

    def xcm_want(self, *a):
        return self.fail(errno.ENOTSUP)

    def xcm_set_blocking(self, h, v):
        return 0

    def xcm_is_blocking(self, h):
        return False

    def xcm_send(self, h, buf, n):
        o = W.h[h]
        c = o.c
        if c.send_errors:
            return self.fail(c.send_errors.popleft())
        if o.end is not None:
            return self.fail(errno.EPIPE)
        if c.window is not None and len(c.unread) >= c.window:
            return self.fail(errno.EAGAIN)
        c.deliver(bytes(buf)[:n])
        return 0

    def xcm_receive(self, h, ref, cap):
        o = W.h[h]
        if o.c.recv_errors:
            return self.fail(o.c.recv_errors.popleft())
        if o.rx:
            m = o.rx.popleft()
            ctypes.memmove(ctypes.addressof(ref._obj), m, len(m))
            return len(m)
        if o.end is None:
            return self.fail(errno.EAGAIN)
        if o.end == 'close':
            return 0
        return self.fail(errno.ECONNRESET)

    def xcm_attr_get(self, h, name, tref, buf, cap):
        o = W.h[h]
        n = _s(name)
        if n == 'xcm.remote_addr':
            if o.c.attr_error:
                return self.fail(o.c.attr_error)
            v, t = o.c.remote.encode() + b'\0', 3
        elif n == 'xcm.transport':
            v, t = o.c.remote.split(':')[0].encode() + b'\0', 3
        elif n == 'tls.peer_subject_key_id' and o.c.ski:
            v, t = o.c.ski, 4
        else:
            return self.fail(errno.ENOENT)
        ctypes.memmove(buf, v, len(v))
        tref._obj.value = t
        return len(v)

    xcm_attr_set_bool = xcm_attr_set_int64 = xcm_attr_set_str = \
        lambda self, h, n, v: 0


class Client:
    def __init__(self, k, name, remote=None, ski=None, window=None,
                 addr=None, reply=False):
        self.k = k
        self.name = name
        self.remote = remote or 'ux:' + name
        self.ski = ski
        self.window = window
        self.reply = reply          # answer track queries at once
        self.unread = []
        self.msgs = []
        self.times = []
        self.early = []
        self.ended = None
        self.conn = None
        self.closed = False
        self.closed_at = None
        self.accepted_at = None
        self.attr_error = None
        self.send_errors = collections.deque()
        self.recv_errors = collections.deque()
        self.ta = 0
        W.listeners[addr or k.addrs[0]].backlog.append(self)

    def deliver(self, data):
        if self.window is not None:
            self.unread.append(data)
        else:
            self.take(data)

    def take(self, data):
        m = json.loads(data.decode())
        self.msgs.append(m)
        self.times.append(W.now)
        if self.reply and m.get('track-type') == 'query':
            self.raw(json.dumps({'ta-cmd': 'track', 'ta-id': m['ta-id'],
                                 'msg-type': 'inform',
                                 'track-type': 'reply'}).encode())

    def read(self, n=None):
        """Read what waits in the socket (limited window only)."""
        take, self.unread[:] = self.unread[:n], \
            self.unread[len(self.unread) if n is None else n:]
        for d in take:
            self.take(d)
        return len(take)

    def raw(self, data):
        if self.conn is None:
            self.early.append(data)
        else:
            self.conn.rx.append(data)

    def req(self, cmd, ta=None, mtype='request', **kw):
        if ta is None:
            self.ta += 1
            ta = self.ta
        m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': mtype}
        m.update({n.replace('_', '-'): v for n, v in kw.items()})
        self.raw(json.dumps(m).encode())
        return ta

    def hello(self, cid, vmin=2, vmax=3):
        return self.req('hello', client_id=cid,
                        protocol_minimum_version=vmin,
                        protocol_maximum_version=vmax)

    def publish(self, sid, gen=1, props=None, ttl=5):
        return self.req('publish', service_id=sid, generation=gen,
                        service_props=props or {}, ttl=ttl)

    def unpublish(self, sid):
        return self.req('unpublish', service_id=sid)

    def subscribe(self, sub, filter=None):
        if filter is None:
            return self.req('subscribe', subscription_id=sub)
        return self.req('subscribe', subscription_id=sub, filter=filter)

    def close(self, how='close'):
        self.ended = how
        if self.conn is not None:
            self.conn.end = how

    def of(self, ta):
        return [m for m in self.msgs if m['ta-id'] == ta]

    def last(self, ta):
        """Type (and reason) of the last response of a transaction."""
        ms = self.of(ta)
        if not ms:
            return None
        m = ms[-1]
        return m['msg-type'] if m['msg-type'] != 'fail' else \
            'fail:' + m.get('fail-reason', '')

    def notes(self, ta):
        return [(m['match-type'], m['service-id']) for m in self.of(ta)
                if 'match-type' in m]


EPOLLS = []


class FakeEpoll:
    def __init__(self):
        self.regs = {}
        EPOLLS.append(self)

    def register(self, fd, mask=0):
        if fd in self.regs:
            raise FileExistsError(errno.EEXIST, "exists")
        self.regs[fd] = mask

    def modify(self, fd, mask):
        if fd not in self.regs:
            raise FileNotFoundError(errno.ENOENT, "no such fd")
        self.regs[fd] = mask

    def unregister(self, fd):
        if fd not in self.regs:
            raise FileNotFoundError(errno.ENOENT, "no such fd")
        del self.regs[fd]

    def close(self):
        pass

    def ready(self):
        out = []
        objs = {o.fd: o for o in W.h.values()}
        for fd, mask in self.regs.items():
            o = objs.get(fd)
            if o is not None:
                if o.ready():
                    out.append((fd, select.EPOLLIN))
            elif fd < 1000 and select.select([fd], [], [], 0)[0]:
                out.append((fd, select.EPOLLIN))
        if KIT.order is not None:
            out.sort(key=KIT.order)
        return out

    def poll(self, timeout=-1, maxevents=-1):
        k = KIT
        k.clock_calls = 0
        if timeout is None:
            timeout = -1
        due = None if timeout < 0 else W.now + timeout
        while True:
            k.polls += 1
            if k.polls > 100000:
                raise AssertionError("the server is spinning")
            r = self.ready()
            if r:
                k.timeout = None
                W.now += k.turn
                return r[:k.max_events] if k.max_events else r
            k.timeout = timeout
            if due is not None and due <= W.now:
                return []
            if due is not None and (k.resume_at is None or
                                    due <= k.resume_at + k.skew):
                W.now = max(W.now, due)
                return []
            if k.resume_at is None:
                raise AssertionError("nothing left to happen")
            k.step()
            if timeout >= 0 and k.skew:
                due = due + k.skew
                k.skew = 0.0


class Kit:
    def __init__(self, domains=(('ux:d0',),), user=None, total=None,
                 idle=(4, 30), versions=(2, 3)):
        self.domains = domains
        self.addrs = [a for d in domains for a in d]
        self.user = user or {}
        self.total = total or {}
        self.idle = idle
        self.versions = versions
        self.resume_at = W.now
        self.polls = 0
        self.clock_calls = 0
        self.turn = 0.0
        self.skew = 0.0
        self.order = None
        self.max_events = None
        self.timeout = None
        self.gen = None
        self.servers = None
        self.loop = None

    def client(self, name, **kw):
        return Client(self, name, **kw)

    def step(self):
        W.now = max(W.now, self.resume_at)
        try:
            d = next(self.gen)
        except StopIteration:
            raise Done()
        self.resume_at = W.now + d

    def jump(self, d):
        """Step the wall clock."""
        W.now += d
        self.skew += d

    @property
    def now(self):
        return W.now

    def signal(self, signo=15):
        """A termination signal arrives."""
        os.write(SIGNAL_FD[0], bytes([signo]))


KIT = None
SIGNAL_FD = [None]


def main(demo, daemon=False, **kw):
    """Run the demonstration; exit status 1 if it raises."""
    global KIT
    KIT = k = Kit(**kw)
    real_time = time.time
    ctypes.CDLL = lambda *a, **b: Lib()
    ctypes.get_errno = lambda: W.err
    select.epoll = FakeEpoll

    def now():
        k.clock_calls += 1
        if k.clock_calls > 200000:
            raise AssertionError("the server is spinning")
        return W.now
    time.time = now
    random.seed(1)
    logging.disable(logging.CRITICAL)
    import signal
    signal.set_wakeup_fd = lambda fd, **kw: SIGNAL_FD.__setitem__(0, fd) or -1
    import paf.conf
    import paf.daemon
    import paf.eventloop
    import paf.server
    conf = paf.conf.default()
    conf.set_domains([list(d) for d in k.domains])
    for d in conf.domains:
        d.idle_limit.idle_min, d.idle_limit.idle_max = k.idle
        d.proto_version_limit.version_min, \
            d.proto_version_limit.version_max = k.versions
    for n, v in k.user.items():
        conf.resources.user.set_limit(n, v)
    for n, v in k.total.items():
        conf.resources.total.set_limit(n, v)
    k.gen = demo(k)
    import traceback
    failed = None
    orig_exc = paf.daemon.exception

    def on_exc(msg, *a, **b):
        traceback.print_exc()
        return orig_exc(msg, *a, **b)
    paf.daemon.exception = on_exc
    try:
        paf.daemon.run(conf)
        failed = "server returned"
    except Done:
        pass
    except SystemExit as e:
        k.exit_status = e.code
        try:
            for _ in k.gen:
                pass
        except Exception:
            traceback.print_exc()
            failed = "demonstration failed after server exit"
        else:
            if e.code != 0:
                failed = "server exited with status %s" % e.code
            elif not daemon:
                failed = "server exited"
    except BaseException:
        traceback.print_exc()
        failed = "demonstration failed"
    time.time = real_time
    print("FAILED: %s" % failed if failed else "ok")
    sys.stdout.flush()
    os._exit(1 if failed else 0)
