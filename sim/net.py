"""Simulated operating system and XCM transport.

`Proc` is what one process sees of the kernel: descriptors, pipes, epoll,
poll, signals.  `Net` is the message transport behind the fake libxcm: it
implements the part of the XCM C API that paf/xcm.py binds (non-blocking
sockets with an await condition and a pollable descriptor), with seeded
latency, bounded transmit windows, resets, half-open connections, partitions,
spurious EAGAIN, failing calls and so on.
"""

import ctypes
import errno as E
import fcntl as _fcntl
import math
import os
import select as _select
import signal as _signal
from collections import deque

from .kernel import SimKill, HarnessError

RECEIVABLE, SENDABLE, ACCEPTABLE = 1, 2, 4
MAX_MSG = 65535
FD_BASE = 5


# ---------------------------------------------------------------------------
# processes
# ---------------------------------------------------------------------------

class Proc:
    def __init__(self, sim, net, node, pid, sched):
        self.sim = sim
        self.net = net
        self.node = node
        self.pid = pid
        self.sched = sched          # Sched: wake-up behaviour of this process
        self.fds = {}
        self.errno = 0
        self.handlers = {}
        self.wakeup_fd = -1
        self.handles = {}           # xcm handles open in this process
        self.attr_maps = set()
        self.attr_values = {}       # of all attribute maps there ever were
        self.nonblock = set()       # fds in non-blocking mode
        self.withheld = ()          # fds left out by the last partial poll
        self.dead = False
        self.observer = None        # oracle hooks (server processes)
        self.turn_calls = 0
        self.crash_in = None        # crash at the n-th call from now
        self.signals_in = []        # [n, signo]: signal at the n-th call
        self.installed = set()      # signals that ever had a handler
        self.on_signal = None
        self.epolls = []
        self.turn_progress = False
        self.idle_turns = 0
        self.clock_reads = 0        # since the process last blocked
        self.max_clock_reads = 1000000
        self.hang_tags = ['P01', 'P14']

    # every interaction with the kernel passes here
    def enter(self, what):
        if self.dead or self.node.killed:
            raise SimKill()
        self.node.total_calls += 1
        self.turn_calls += 1
        if self.turn_calls > 200000:
            self.sim.violate('hang', self.hang_tags,
                             "%s made 200000 kernel calls without blocking"
                             % self.node.name)
            raise SimKill()
        if self.crash_in is not None:
            self.crash_in -= 1
            if self.crash_in <= 0:
                self.crash_in = None
                self.sim.count('fault:crash-mid-turn')
                self.net.crash(self.node, mid_turn=True)
                raise SimKill()
        for x in list(self.signals_in):
            x[0] -= 1
            if x[0] <= 0:
                self.signals_in.remove(x)
                self.signal_here(x[1])

    def signal_here(self, signo):
        self.sim.log('SIGNAL', signo)
        if signo not in self.installed:
            # the process is just starting; the signal would simply end it
            self.sim.probe('signal-too-early')
            return
        self.sim.count('fault:signal-mid-turn')
        if self.on_signal is not None:
            self.on_signal()
        if not self.deliver_signal(signo):
            self.sim.violate('signal-kills', ['P15'],
                             "signal %d terminates the process abruptly" %
                             signo)
            raise SimKill()

    def stuck(self, what):
        self.sim.violate('blocking-call', ['P01', 'P02', 'P07', 'P12', 'P13',
                                           'P14', 'P15', 'P17'],
                         "%s blocks in a %s while everybody else waits" %
                         (self.node.name, what))
        raise SimKill()

    def spinning(self):
        self.clock_reads = 0
        self.sim.violate('hang', self.hang_tags,
                         "%s read the clock %d times without ever going back "
                         "to wait for events" %
                         (self.node.name, self.max_clock_reads))
        raise SimKill()

    def unsupported(self, name):
        def fn(*args, **kw):
            raise HarnessError("%s is not simulated" % name)
        return fn

    def set_errno(self, value):
        self.errno = value

    # -- descriptors ------------------------------------------------------
    def alloc_fd(self, obj):
        fd = FD_BASE
        while fd in self.fds:
            fd += 1
        self.fds[fd] = obj
        return fd

    def free_fd(self, fd):
        self.fds.pop(fd, None)
        self.nonblock.discard(fd)
        for ep in self.epolls:
            ep.reg.pop(fd, None)
            ep.seen.discard(fd)

    def pipe(self):
        self.enter('pipe')
        q = Pipe()
        return self.alloc_fd(PipeEnd(q, True)), self.alloc_fd(PipeEnd(q, False))

    def pipe2(self, flags):
        fds = self.pipe()
        for fd in fds:
            self.set_fd_blocking(fd, not flags & os.O_NONBLOCK)
        return fds

    def read(self, fd, n):
        obj = self.fds.get(fd)
        if obj is None and fd < FD_BASE:
            return os.read(fd, n)
        self.enter('read')
        if not isinstance(obj, PipeEnd):
            raise OSError(E.EBADF, os.strerror(E.EBADF))
        q = obj.pipe
        if not q.data and fd not in self.nonblock:
            self.stuck('read from an empty pipe')
        if not q.data:
            raise BlockingIOError(E.EAGAIN, os.strerror(E.EAGAIN))
        out = bytes(q.data[:n])
        del q.data[:n]
        self.turn_progress = True
        return out

    def write(self, fd, data):
        obj = self.fds.get(fd)
        if obj is None and fd < FD_BASE:
            return os.write(fd, data)
        if not isinstance(obj, PipeEnd):
            raise OSError(E.EBADF, os.strerror(E.EBADF))
        obj.pipe.data.extend(data)
        self.sim.dirty = True
        return len(data)

    def close_fd(self, fd):
        if self.dead or self.node.killed:
            return
        if fd not in self.fds:
            raise OSError(E.EBADF, os.strerror(E.EBADF))
        self.free_fd(fd)

    def fcntl(self, fd, cmd, arg=0):
        if fd not in self.fds:
            raise OSError(E.EBADF, os.strerror(E.EBADF))
        if cmd == _fcntl.F_GETFL:
            return os.O_NONBLOCK if fd in self.nonblock else 0
        if cmd == _fcntl.F_SETFL:
            self.set_fd_blocking(fd, not arg & os.O_NONBLOCK)
        return 0

    def set_fd_blocking(self, fd, blocking):
        if blocking:
            self.nonblock.discard(fd)
        else:
            self.nonblock.add(fd)

    def sleep(self, d):
        if self.dead:
            raise SimKill()
        if d > 0:
            self.enter('sleep')
            calls, reads = self.turn_calls, self.clock_reads
            Waiter(self, {}, d).block()
            self.turn_calls, self.clock_reads = calls, reads

    def select(self, rlist, wlist, xlist, timeout=None):
        poll = FakePoll(self)
        objs = {}
        for obj in rlist:
            fd = obj if isinstance(obj, int) else obj.fileno()
            objs.setdefault(fd, []).append(obj)
            poll.register(fd)
        res = poll.poll(None if timeout is None else timeout * 1000)
        return [o for fd, _ in res for o in objs[fd]], [], []

    def os_exit(self, code):
        raise SystemExit(code)

    # -- signals ------------------------------------------------------------
    def signal(self, signo, handler):
        self.enter('signal')
        old = self.handlers.get(signo, _signal.SIG_DFL)
        self.handlers[signo] = handler
        if callable(handler):
            self.installed.add(signo)
        return old

    def getsignal(self, signo):
        return self.handlers.get(signo, _signal.SIG_DFL)

    def set_wakeup_fd(self, fd, warn_on_full_buffer=True):
        if fd != -1 and fd not in self.nonblock:
            raise ValueError("the fd %i must be in non-blocking mode" % fd)
        if fd != -1:        # (also reset by a finalizer)
            self.enter('set_wakeup_fd')
        old = self.wakeup_fd
        self.wakeup_fd = fd
        return old

    def deliver_signal(self, signo):
        """Returns False if the process is killed by the signal."""
        h = self.handlers.get(signo, _signal.SIG_DFL)
        if h == _signal.SIG_IGN:
            return True
        if h == _signal.SIG_DFL or h is None:
            return False
        self.hang_tags = ['P01', 'P14', 'P15']
        obj = self.fds.get(self.wakeup_fd)
        if obj is not None:
            obj.pipe.data.append(signo & 0xff)
            self.sim.dirty = True
        h(signo, None)
        return True

    # -- epoll / poll -----------------------------------------------------------
    def make_epoll(self, *args, **kw):
        ep = FakeEpoll(self)
        self.epolls.append(ep)
        return ep

    def make_poll(self):
        return FakePoll(self)

    def fd_ready(self, fd):
        obj = self.fds.get(fd)
        return obj is not None and obj.ready()

    def kill_cleanup(self):
        self.dead = True
        for h in sorted(self.handles):
            self.handles[h].process_died()
        self.handles = {}
        self.fds = {}


class Pipe:
    def __init__(self):
        self.data = bytearray()


class PipeEnd:
    def __init__(self, pipe, is_read):
        self.pipe = pipe
        self.is_read = is_read

    def ready(self):
        return self.is_read and len(self.pipe.data) > 0


class WaitCell:
    def __init__(self, ready):
        self.ready = ready


class Sched:
    """Wake-up behaviour of a process: how late, how partial, how spurious."""

    def __init__(self, conf):
        self.late_p = conf.get('late_p', 0.3)
        self.late_max = conf.get('late_max', 0.002)
        self.stall_p = conf.get('stall_p', 0.0)
        self.stall_max = conf.get('stall_max', 1.0)
        self.partial_p = conf.get('partial_p', 0.0)
        self.spurious_p = conf.get('spurious_p', 0.0)
        self.early_p = conf.get('early_p', 0.0)


class Waiter:
    """A process blocked in poll/epoll_wait."""

    def __init__(self, proc, masks, timeout, seen=None):
        self.proc = proc
        self.seen = set() if seen is None else seen
        self.node = proc.node
        self.sim = proc.sim
        self.masks = masks          # dict fd -> mask (live view for epoll)
        self.scheduled = False
        self.deadline = None
        self.result = None
        self.done = False
        if timeout is not None and timeout >= 0:
            ms = math.ceil(timeout * 1000 - 1e-9)
            self.deadline = self.sim.now + ms / 1000.0

    def fd_ready(self, fd):
        obj = self.proc.fds.get(fd)
        if obj is None:
            return False
        mask = self.masks[fd]
        if mask & 5 and hasattr(obj, 'ready_for'):
            return obj.ready_for(mask)
        if mask & 1 and mask < (1 << 30):       # level-triggered input
            return obj.ready()
        if mask & _select.EPOLLET and mask & 1:
            # edge-triggered: reported once, until it was not ready
            if not obj.ready():
                self.seen.discard(fd)
                return False
            return fd not in self.seen
        return bool(mask & 1) and obj.ready()

    def ready(self):
        for fd in self.masks:
            if self.fd_ready(fd):
                return True
        return False

    def ready_fds(self):
        return [fd for fd in sorted(self.masks) if self.fd_ready(fd)]

    def lateness(self):
        s = self.proc.sched
        rng = self.node.rng
        d = 0.0
        if s.late_p and rng.random() < s.late_p:
            d = rng.random() * s.late_max
        if s.stall_p and rng.random() < s.stall_p:
            d += rng.random() * s.stall_max
            self.sim.count('fault:process-stall')
        if self.proc.net.forced_stall.get(self.node.name):
            d += self.proc.net.forced_stall.pop(self.node.name)
            self.sim.count('fault:process-stall')
        return d

    def schedule_wake(self):
        self.scheduled = True
        d = self.lateness()
        self.sim.after(d, self.wake)

    def wake(self):
        """Event: let the process return from poll if there is a reason."""
        if self.done or self.node.state != 'blocked':
            return None
        ready = self.ready_fds()
        if not ready:
            if self.deadline is not None and self.sim.now >= self.deadline:
                return self.finish([])
            self.scheduled = False
            return None
        rng = self.node.rng
        s = self.proc.sched
        rng.shuffle(ready)
        if len(ready) > 1 and s.partial_p and rng.random() < s.partial_p:
            n = rng.randint(1, len(ready) - 1)
            # nothing is withheld twice in a row
            held = {fd for fd in ready[n:] if fd not in self.proc.withheld}
            ready = [fd for fd in ready if fd not in held]
            self.proc.withheld = held
            self.sim.count('fault:partial-ready-set')
        else:
            self.proc.withheld = ()
        if s.spurious_p and rng.random() < s.spurious_p:
            extra = [fd for fd in sorted(self.masks) if fd not in ready and
                     not isinstance(self.proc.fds.get(fd), PipeEnd)]
            if extra:
                ready.insert(rng.randint(0, len(ready)), rng.choice(extra))
                self.sim.count('fault:spurious-ready')
        return self.finish([(fd, _select.EPOLLIN) for fd in ready])

    def timeout_wake(self):
        if self.done or self.node.state != 'blocked':
            return None
        return self.finish([(fd, _select.EPOLLIN) for fd in self.ready_fds()])

    def early_wake(self):
        if self.done or self.node.state != 'blocked':
            return None
        self.sim.count('fault:early-wake')
        return self.finish([])

    def end_stall(self):
        """No further delay beyond a moment."""
        if self.ready():
            self.scheduled = True
            self.sim.after(0.001, self.wake)
        if self.deadline is not None:
            self.sim.at(max(self.deadline, self.sim.now) + 0.001,
                        self.timeout_wake)

    def finish(self, result):
        self.done = True
        for fd, _ in result:
            mask = self.masks.get(fd, 0)
            if mask & _select.EPOLLET:
                self.seen.add(fd)
            if mask & _select.EPOLLONESHOT:
                self.masks[fd] = 0
        self.result = result
        return self.node

    def block(self):
        sim, node, proc = self.sim, self.node, self.proc
        if self.ready():
            self.schedule_wake()
        if self.deadline is not None:
            d = self.deadline - sim.now
            sim.at(self.deadline + (self.lateness() if d > 1e-4 else 0.0),
                   self.timeout_wake)
            s = proc.sched
            if d > 0.01 and s.early_p and node.rng.random() < s.early_p:
                sim.at(sim.now + d * node.rng.random(), self.early_wake)
        node.waiter = self
        proc.turn_calls = 0
        proc.clock_reads = 0
        sim.block(node)
        node.waiter = None
        return self.result


class FakeEpoll:
    def __init__(self, proc):
        self.proc = proc
        self.reg = {}
        self.seen = set()           # edge-triggered descriptors reported
        self.closed = False

    def _fd(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        if fd < 0 or fd not in self.proc.fds:
            if self.proc.dead:
                raise SimKill()
            raise OSError(E.EBADF, os.strerror(E.EBADF))
        return fd

    def register(self, fd, eventmask=_select.EPOLLIN):
        fd = self._fd(fd)
        if fd in self.reg:
            raise FileExistsError(E.EEXIST, os.strerror(E.EEXIST))
        self.reg[fd] = eventmask

    def unregister(self, fd):
        fd = self._fd(fd)
        if fd not in self.reg:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT))
        del self.reg[fd]
        self.seen.discard(fd)

    def modify(self, fd, eventmask):
        fd = self._fd(fd)
        if fd not in self.reg:
            raise FileNotFoundError(E.ENOENT, os.strerror(E.ENOENT))
        self.reg[fd] = eventmask
        self.seen.discard(fd)

    def poll(self, timeout=None, maxevents=-1):
        proc = self.proc
        proc.enter('epoll')
        if timeout is None:
            timeout = -1
        if timeout >= 0 and timeout * 1000 > (1 << 31) - 1:
            raise OverflowError("timeout is too large")
        # (a turn of the loop takes time, so that a process that polls until
        # something is due gets there)
        w = Waiter(proc, self.reg, timeout if timeout >= 0 else None,
                   self.seen)
        if timeout == 0:
            w.deadline += 2e-5
        if proc.observer is not None:
            proc.observer.poll_enter(proc, timeout, w)
        res = w.block()
        if proc.observer is not None:
            proc.observer.poll_return(proc, res)
        if maxevents > 0:
            res = res[:maxevents]
        return res

    def close(self):
        self.closed = True

    def fileno(self):
        return 4


class FakePoll:
    def __init__(self, proc):
        self.proc = proc
        self.reg = {}

    def register(self, fd, eventmask=_select.POLLIN):
        if not isinstance(fd, int):
            fd = fd.fileno()
        self.reg[fd] = eventmask

    def modify(self, fd, eventmask):
        self.register(fd, eventmask)

    def unregister(self, fd):
        if not isinstance(fd, int):
            fd = fd.fileno()
        del self.reg[fd]

    def poll(self, timeout=None):
        proc = self.proc
        proc.enter('poll')
        if timeout is not None and timeout >= 0:
            timeout = timeout / 1000.0
        else:
            timeout = None
        w = Waiter(proc, self.reg, timeout)
        if proc.observer is not None:
            proc.observer.poll_enter(proc, -1 if timeout is None else timeout,
                                     w)
        res = w.block()
        if proc.observer is not None:
            proc.observer.poll_return(proc, res)
        return [(fd, _select.POLLIN) for fd, _ in res]


# ---------------------------------------------------------------------------
# transport
# ---------------------------------------------------------------------------

class Handle:
    """An XCM socket owned by a simulated process."""

    def __init__(self, net, proc):
        self.net = net
        self.sim = net.sim
        self.proc = proc
        self.cond = 0
        self.fd = None
        self.blocking = True
        net.next_handle += 16
        self.h = net.next_handle
        proc.handles[self.h] = self
        self.fd = proc.alloc_fd(self)
        self.closed = False

    def release(self):
        self.closed = True
        self.proc.handles.pop(self.h, None)
        self.proc.free_fd(self.fd)


class Listener(Handle):
    def __init__(self, net, proc, addr):
        Handle.__init__(self, net, proc)
        self.addr = addr
        self.backlog = deque()
        self.accept_faults = deque()     # errnos for the coming accepts
        self.accepts = 0

    def ready(self):
        return bool(self.cond & ACCEPTABLE) and \
            (len(self.backlog) > 0 or len(self.accept_faults) > 0)

    def close(self):
        self.release()
        if self.net.listeners.get(self.addr) is self:
            del self.net.listeners[self.addr]
        for link in self.backlog:
            link.server_gone()
        self.backlog.clear()

    def process_died(self):
        self.close()


class ServerEnd(Handle):
    """The process side of an accepted (or client-library) connection."""

    def __init__(self, net, proc, link, side):
        Handle.__init__(self, net, proc)
        self.link = link
        self.side = side                 # 0: server side, 1: client side
        self.cond = 0
        self.eof_seen = False
        self.dead_errno = None
        link.ends[side] = self

    @property
    def name(self):
        return self.link.name

    def ready(self):
        if self.cond & RECEIVABLE and self.link.can_receive(self.side):
            return True
        if self.side == 1 and self.cond and self.dead_errno is not None:
            return True
        if self.cond & SENDABLE and self.link.can_send(self.side):
            return True
        return False

    def close(self):
        self.release()
        self.link.local_close(self.side)

    def process_died(self):
        self.release()
        self.link.local_close(self.side, rst=True)


class Link:
    """One transport connection.  side 0 is the server, side 1 the client."""

    def __init__(self, net, name, addr, remote_addr, opts):
        self.net = net
        self.sim = net.sim
        self.name = name
        self.addr = addr
        self.remote_addr = remote_addr
        self.opts = opts
        self.ski = opts.get('ski')
        self.transport = opts.get('transport') or remote_addr.split(':')[0]
        self.rng = net.sim.rng("link/" + name)
        self.window = [opts.get('swin', 10 ** 9), opts.get('cwin', 10 ** 9)]
        self.lat = opts.get('lat', [0.0002, 0.002])
        self.ends = [None, None]         # ServerEnd or None
        self.actor = None                # raw client (side 1)
        # per direction d = sending side
        self.flight = [deque(), deque()]
        self.rx = [deque(), deque()]     # rx[side]: arrived, unread
        self.rx_end = [None, None]       # 'fin' or errno, after rx is drained
        self.last_arrival = [0.0, 0.0]
        self.closed = [False, False]     # locally closed
        self.partitioned = False
        self.keepalive = True            # on the server's side
        self.stub = None                 # scripted peer on side 0
        self.csend_faults = deque()      # for sends of a client process
        self.crecv_faults = deque()
        self.ceagain_p = 0.0
        self.send_faults = deque()       # for server-side sends: errno
        self.recv_faults = deque()
        self.attr_faults = {}
        self.eagain_p = opts.get('eagain_p', 0.0)
        self.stall_read = False          # actor not reading
        self.accepted = False
        self.refused = False
        self.congested = False
        self.sent_total = 0
        self.conn_sn = None

    # -- receiving ----------------------------------------------------------
    def can_receive(self, side):
        return len(self.rx[side]) > 0 or self.rx_end[side] is not None or \
            len(self.recv_faults if side == 0 else self.crecv_faults) > 0

    def in_window(self, d):
        return len(self.flight[d]) + len(self.rx[1 - d])

    def can_send(self, side):
        if self.rx_end[side] not in (None, 'fin'):
            return True
        return self.in_window(side) < self.window[side]

    # -- sending ------------------------------------------------------------
    def push(self, d, item):
        """Put an item in flight from side d to the other side."""
        lat = self.lat[0] + self.rng.random() * (self.lat[1] - self.lat[0])
        t = max(self.sim.now + lat, self.last_arrival[d])
        self.last_arrival[d] = t
        self.flight[d].append([t, item])
        if not self.partitioned:
            self.sim.at(t, lambda: self.arrive(d))

    def arrive(self, d):
        if self.partitioned:
            return
        while self.flight[d] and self.flight[d][0][0] <= self.sim.now:
            item = self.flight[d].popleft()[1]
            self.deliver(1 - d, item)
        self.sim.dirty = True

    def heal(self):
        if not self.partitioned:
            return
        self.partitioned = False
        for d in (0, 1):
            for ent in self.flight[d]:
                ent[0] = max(ent[0], self.sim.now)
                self.sim.at(ent[0], lambda d=d: self.arrive(d))

    def deliver(self, side, item):
        if self.closed[side]:
            # data for a closed socket is answered by a reset
            if item[0] == 'm':
                self.push(side, ('rst',))
            return
        if self.rx_end[side] is not None:
            if item[0] == 'rst' and self.rx_end[side] == 'fin':
                self.rx_end[side] = E.ECONNRESET
                if self.rng.random() < 0.5:
                    self.rx[side].clear()
            return
        if item[0] == 'm':
            self.rx[side].append(item[1])
        elif item[0] == 'fin':
            self.rx_end[side] = 'fin'
        elif item[0] == 'rst':
            self.rx_end[side] = item[1] if len(item) > 1 else E.ECONNRESET
            if self.rng.random() < 0.7:
                self.rx[side].clear()
        self.sim.dirty = True
        if side == 1 and self.actor is not None:
            self.drain_actor()
        if side == 0 and self.stub is not None:
            self.drain_stub()

    def drain_stub(self):
        while not self.closed[0]:
            if self.rx[0]:
                m = self.rx[0].popleft()
                self.sim.dirty = True
                self.stub.received(m)
            elif self.rx_end[0] is not None:
                self.stub.disconnected(self.rx_end[0])
                return
            else:
                return

    def drain_actor(self):
        a = self.actor
        while a is not None and not self.stall_read and not self.closed[1]:
            if self.rx[1]:
                m = self.rx[1].popleft()
                self.sim.dirty = True
                a.received(m)
            elif self.rx_end[1] is not None:
                why = self.rx_end[1]
                self.actor = None
                a.disconnected(why)
                return
            else:
                return

    # -- closing --------------------------------------------------------------
    def local_close(self, side, rst=False):
        if self.closed[side]:
            return
        self.closed[side] = True
        unread = len(self.rx[side]) > 0
        self.rx[side].clear()
        # like TCP: closing with unread data resets the connection
        if rst or (unread and self.rng.random() < 0.7):
            self.push(side, ('rst',))
        else:
            self.push(side, ('fin',))
        self.sim.dirty = True

    def keepalive_expired(self, supervised=False):
        """The kernel gives up on a peer which vanished (or, if the server
        itself looks after the connection, on what it sent there)."""
        if self.closed[1] and self.partitioned and not self.closed[0] and \
           self.rx_end[0] is None and (self.keepalive or supervised):
            self.flight[1].clear()
            self.deliver(0, ('rst', E.ETIMEDOUT))

    def server_gone(self):
        """The listening process went away before accepting."""
        self.closed[0] = True
        self.push(0, ('rst',))

    # -- raw client side operations ------------------------------------------
    def actor_send(self, data):
        if self.closed[1] or self.rx_end[1] not in (None, 'fin') or \
           len(data) > MAX_MSG:
            return False
        self.push(1, ('m', data))
        return True

    def actor_close(self, mode):
        if self.closed[1]:
            return
        self.actor = None
        if mode == 'vanish':             # half-open: nobody tells the server
            self.closed[1] = True
            self.partitioned = True
            self.rx[1].clear()
            return
        self.local_close(1, rst=(mode == 'rst'))


class Net:
    def __init__(self, sim):
        self.sim = sim
        self.listeners = {}
        self.links = []
        self.next_handle = 0x1000
        self.forced_stall = {}
        self.on_crash = None
        self.conn_sn = 0
        self.emsgsize = 0

    # -- raw clients ----------------------------------------------------------
    def raw_connect(self, link, actor):
        self.links.append(link)
        link.actor = actor
        lat = link.lat[0] + link.rng.random() * (link.lat[1] - link.lat[0])
        link.last_arrival[1] = self.sim.now + lat
        self.sim.after(lat, lambda: self._arrive(link))

    def _arrive(self, link):
        lst = self.listeners.get(link.addr)
        if lst is None:
            link.refused = True
            link.closed[0] = True
            link.push(0, ('rst', E.ECONNREFUSED))
            return
        lst.backlog.append(link)
        self.sim.dirty = True

    def crash(self, node, mid_turn=False):
        proc = node.proc
        self.sim.log('CRASH', node.name)
        proc.kill_cleanup()
        if mid_turn:
            node.state = 'dead'
        else:
            self.sim.kill(node)
        if self.on_crash is not None:
            self.on_crash(node)

    # -- fake libxcm ------------------------------------------------------------
    def libxcm(self, proc):
        return LibXcm(self, proc)


SKI = 'tls.peer_subject_key_id'


class CFun:
    """Looks like a ctypes foreign function."""

    def __init__(self, fn):
        self.fn = fn
        self.restype = None
        self.argtypes = None

    def __call__(self, *args):
        return self.fn(*args)


def _cstr(x):
    if isinstance(x, (bytes, bytearray)):
        return bytes(x).decode()
    return x.value.decode()


def _target(ref):
    return getattr(ref, '_obj', ref)


class LibXcm:
    def __init__(self, net, proc):
        self._net = net
        self._proc = proc
        for name in dir(type(self)):
            if name.startswith('xcm_'):
                setattr(self, name, CFun(getattr(self, name)))

    def _fail(self, err, rc=-1):
        self._proc.errno = err
        return rc

    def _get(self, h):
        hd = self._proc.handles.get(h)
        if hd is None:
            if self._proc.dead:
                raise SimKill()
            self._net.sim.violate(
                'bad-handle', ['P12', 'P01'],
                "libxcm called with a socket that is not open (use after "
                "close, or NULL)")
            raise SimKill()
        return hd

    # attribute maps
    def xcm_attr_map_create(self):
        p = self._proc
        self._net.next_handle += 16
        h = self._net.next_handle
        p.attr_maps.add(h)
        return h

    def xcm_attr_map_destroy(self, m):
        self._proc.attr_maps.discard(m)

    def xcm_attr_map_add_bool(self, m, name, value):
        self._proc.attr_values.setdefault(m, {})[_cstr(name)] = bool(
            getattr(value, 'value', value))

    def xcm_attr_map_add_int64(self, m, name, value):
        self._proc.attr_values.setdefault(m, {})[_cstr(name)] = int(
            getattr(value, 'value', value))

    def xcm_attr_map_add_str(self, m, name, value):
        self._proc.attr_values.setdefault(m, {})[_cstr(name)] = _cstr(value)

    # sockets
    def xcm_server_a(self, addr, attrs):
        p, net = self._proc, self._net
        p.enter('server')
        addr = _cstr(addr)
        if addr in net.listeners:
            return self._fail(E.EADDRINUSE, None)
        lst = Listener(net, p, addr)
        lst.attrs = p.attr_values.get(attrs, {})
        lst.blocking = lst.attrs.get('xcm.blocking', True)
        net.listeners[addr] = lst
        net.sim.log('LISTEN', p.node.name, addr)
        if p.observer is not None:
            p.observer.on_listen(p, lst)
        return lst.h

    def xcm_connect_a(self, addr, attrs):
        p, net = self._proc, self._net
        p.enter('connect')
        addr = _cstr(addr)
        if addr not in net.listeners:
            if hasattr(p.observer, 'on_refused'):
                p.observer.on_refused(addr, p.attr_values.get(attrs, {}))
            return self._fail(E.ECONNREFUSED, None)
        if p.connector is None:
            raise HarnessError("process may not connect")
        link = p.connector(addr)
        net.links.append(link)
        end = ServerEnd(net, p, link, 1)
        end.attrs = p.attr_values.get(attrs, {})
        end.blocking = end.attrs.get('xcm.blocking', True)
        lat = link.lat[0] + link.rng.random() * (link.lat[1] - link.lat[0])
        link.last_arrival[1] = net.sim.now + lat
        net.sim.after(lat, lambda: net._arrive(link))
        net.sim.log('CONNECT', p.node.name, link.name)
        if p.observer is not None:
            p.observer.on_connect(end)
        return end.h

    def xcm_accept_a(self, h, attrs):
        p, net = self._proc, self._net
        p.enter('accept')
        lst = self._get(h)
        lst.accepts += 1
        if lst.accept_faults:
            err = lst.accept_faults.popleft()
            net.sim.count('fault:accept-error')
            net.sim.log('ACCEPTERR', lst.addr, err)
            p.turn_progress = True
            if err == E.ECONNABORTED and lst.backlog:
                link = lst.backlog.popleft()
                link.server_gone()
            return self._fail(err, None)
        if not lst.backlog:
            if lst.blocking:
                p.stuck('accept')
            return self._fail(E.EAGAIN, None)
        link = lst.backlog.popleft()
        link.accepted = True
        net.conn_sn += 1
        link.conn_sn = net.conn_sn
        end = ServerEnd(net, p, link, 0)
        end.blocking = p.attr_values.get(attrs, {}).get('xcm.blocking',
                                                        lst.blocking)
        p.turn_progress = True
        net.sim.log('ACCEPT', link.name, end.fd)
        if p.observer is not None:
            p.observer.on_accept(p, lst, end)
        return end.h

    def xcm_close(self, h):
        p, net = self._proc, self._net
        if p.dead or p.node.killed or net.sim.ended:
            return 0
        if h not in p.handles:
            self._get(h)
        p.enter('close')
        hd = self._get(h)
        p.turn_progress = True
        net.sim.log('CLOSE', getattr(hd, 'name', getattr(hd, 'addr', '?')))
        hd.close()
        if p.observer is not None:
            p.observer.on_close(p, hd)
        return 0

    def xcm_finish(self, h):
        self._proc.enter('finish')
        self._get(h)
        return 0

    def xcm_await(self, h, cond):
        p = self._proc
        if p.dead:
            raise SimKill()
        hd = self._get(h)
        valid = ACCEPTABLE if isinstance(hd, Listener) \
            else RECEIVABLE | SENDABLE
        if cond & ~valid:
            return self._fail(E.EINVAL)
        hd.cond = cond
        self._net.sim.dirty = True
        return 0

    def xcm_fd(self, h):
        if self._proc.dead:
            raise SimKill()
        return self._get(h).fd

    def xcm_want(self, h, cond, fds, events, cap):
        return self._fail(E.ENOTSUP)

    def xcm_set_blocking(self, h, val):
        self._get(h).blocking = bool(getattr(val, 'value', val))
        return 0

    def xcm_is_blocking(self, h):
        return self._get(h).blocking

    def _again(self, end, what, ready):
        """The call cannot be completed now: -1, or True after waiting."""
        if not end.blocking:
            return self._fail(E.EAGAIN)
        p = self._proc
        if end.side == 0:
            p.stuck(what)
        cell = WaitCell(ready)
        fd = p.alloc_fd(cell)
        while not ready():
            Waiter(p, {fd: 1}, None).block()
        p.free_fd(fd)
        return True

    def xcm_send(self, h, buf, length):
        p, net = self._proc, self._net
        p.enter('send')
        end = self._get(h)
        link = end.link
        data = bytes(buf[:length]) if isinstance(buf, (bytes, bytearray)) \
            else ctypes.string_at(buf, length)
        side = end.side
        if end.dead_errno is not None:
            return self._fail(end.dead_errno)
        if length > MAX_MSG:
            net.emsgsize += 1
            net.sim.log('EMSGSIZE', link.name, length)
            if p.observer is not None:
                p.observer.on_txerr(p, end, E.EMSGSIZE)
            return self._fail(E.EMSGSIZE)
        faults = link.send_faults if side == 0 else link.csend_faults
        if faults:
            err = faults.popleft()
            if err == E.EAGAIN:
                if end.blocking:
                    return self.xcm_send(h, buf, length)
                net.sim.count('fault:send-eagain')
                return self._fail(E.EAGAIN)
            net.sim.count('fault:send-error')
            end.dead_errno = err
            net.sim.log('TXERR', link.name, err)
            if p.observer is not None:
                p.observer.on_txerr(p, end, err)
            return self._fail(err)
        if link.rx_end[side] not in (None, 'fin'):
            err = E.EPIPE
            if p.observer is not None:
                p.observer.on_txerr(p, end, err)
            net.sim.log('TXERR', link.name, err)
            return self._fail(err)
        if link.in_window(side) >= link.window[side]:
            link.congested = True
            net.sim.count('fault:window-full')
            if self._again(end, 'send', lambda: link.can_send(side)) is True:
                return self.xcm_send(h, buf, length)
            return -1
        again = link.eagain_p if side == 0 else link.ceagain_p
        if again and not end.blocking and link.rng.random() < again:
            net.sim.count('fault:send-eagain')
            return self._fail(E.EAGAIN)
        p.turn_progress = True
        link.push(side, ('m', data))
        if p.observer is not None:
            p.observer.on_out(p, end, data)
        return 0

    def xcm_receive(self, h, buf, cap):
        p, net = self._proc, self._net
        p.enter('receive')
        end = self._get(h)
        link, side = end.link, end.side
        faults = link.recv_faults if side == 0 else link.crecv_faults
        if faults:
            err = faults.popleft()
            if err == E.EAGAIN:
                if end.blocking:
                    return self.xcm_receive(h, buf, cap)
                net.sim.count('fault:receive-eagain')
                return self._fail(E.EAGAIN)
            net.sim.count('fault:receive-error')
            end.dead_errno = err
            p.turn_progress = True
            net.sim.log('RXERR', link.name, err)
            if p.observer is not None:
                p.observer.on_rxend(p, end, err)
            return self._fail(err)
        if end.dead_errno is not None:
            return self._fail(end.dead_errno)
        if link.rx[side]:
            data = link.rx[side].popleft()
            n = min(len(data), cap)
            ctypes.memmove(_target(buf), data, n)
            p.turn_progress = True
            net.sim.dirty = True
            if p.observer is not None:
                p.observer.on_in(p, end, data)
            return n
        if link.rx_end[side] is not None:
            p.turn_progress = True
            why = link.rx_end[side]
            net.sim.log('RXEND', link.name, why)
            if p.observer is not None:
                p.observer.on_rxend(p, end, why)
            if why == 'fin':
                return 0
            return self._fail(why)
        if self._again(end, 'receive', lambda: link.can_receive(side)) is True:
            return self.xcm_receive(h, buf, cap)
        return -1

    def xcm_attr_get(self, h, name, type_ref, buf, cap):
        p, net = self._proc, self._net
        end = self._get(h)
        name = _cstr(name)
        link = getattr(end, 'link', None)
        if link is not None and link.attr_faults.get(name):
            if name != SKI:         # (either it's there or it's not)
                link.attr_faults[name] -= 1
            net.sim.count('fault:attr-error')
            net.sim.log('ATTRERR', link.name, name)
            if p.observer is not None:
                p.observer.on_attrerr(p, end, name)
            return self._fail(E.ENOTCONN if name != SKI else E.ENOENT)
        val = None
        if link is not None:
            if name == 'xcm.remote_addr':
                val = link.remote_addr
            elif name == 'xcm.local_addr':
                val = link.addr
            elif name == 'xcm.transport':
                val = link.transport
            elif name == 'tls.peer_subject_key_id':
                val = link.ski
            elif name == 'xcm.max_msg_size':
                val = MAX_MSG
        if val is None:
            return self._fail(E.ENOENT)
        target = _target(type_ref)
        if isinstance(val, bytes):
            target.value = 4
            data = val
        elif isinstance(val, int):
            target.value = 2
            data = bytes(ctypes.c_long(val))
        else:
            target.value = 3
            data = val.encode() + b'\0'
        if len(data) > cap:
            return self._fail(E.EOVERFLOW)
        ctypes.memmove(_target(buf), data, len(data))
        return len(data)

    def _attr_set(self, h, name, value):
        end = self._get(h)
        link = getattr(end, 'link', None)
        n = _cstr(name)
        if link is not None and link.attr_faults.get('set:' + n):
            link.attr_faults['set:' + n] -= 1
            self._net.sim.count('fault:attr-error')
            if self._proc.observer is not None:
                self._proc.observer.on_attrerr(self._proc, end, 'set:' + n)
            return self._fail(E.ENOTCONN)
        value = getattr(value, 'value', value)
        if n == 'xcm.blocking':
            end.blocking = bool(value)
        elif n == 'tcp.keepalive':
            if link is None or link.transport not in ('tcp', 'tls', 'btcp',
                                                      'btls'):
                return self._fail(E.ENOENT)
            if getattr(end, 'side', 1) == 0:
                link.keepalive = bool(value)
        return 0

    def xcm_attr_set_bool(self, h, name, value):
        return self._attr_set(h, name, value)

    def xcm_attr_set_int64(self, h, name, value):
        return self._attr_set(h, name, value)

    def xcm_attr_set_str(self, h, name, value):
        return self._attr_set(h, name, value)


Proc.connector = None
