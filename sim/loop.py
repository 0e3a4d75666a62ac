"""P14: the event loop and the timer queues under arbitrary use.

The real paf.eventloop.EventLoop and paf.timer.TimerManager run as a process
of their own.  The scenario says what the registered handlers do when they
are called: add, remove and re-arm timers and sources, open and close
descriptors (whose numbers are reused), take time, stop the loop.  A record of
what is registered is kept next to it, and every call of a handler and every
time the process goes to sleep is judged against that record.

actions (all of them lists):
  ['timer', id, mgr, delay, relative, acts, repeat]
  ['twin', id, id2, mgr, delay]            two equal timers sharing a handler
  ['untimer', id]
  ['src', id, {'fd': 0/1, 'timeout': delay/None, 'active': n}, acts, timeouts]
  ['unsrc', id]
  ['timeout', id, delay/None]              set_timeout/clear_timeout
  ['refd', id]                             close the descriptor, open another
  ['swapfd', id]                           open another descriptor, then close
                                           the old one
  ['poke', id, what]                       its owner goes on using a source
                                           which was removed
  ['nofd', id]                             close the descriptor
  ['ready', id, mask]                      make the descriptor ready
  ['mask', id, mask]                       wait for other events (1 in, 4 out)
  ['active', id, n]                        active until n calls were made
  ['busy', seconds]                        the handler takes that long
  ['stop']
"""

import random
import select as _select
import traceback

from . import hook
from .kernel import Sim, Node, SimKill, HarnessError
from .net import Net, Proc, Sched
from .scenario import HASH_MOD, load_instance

TAGS = ['P14']
EPS = 1e-6
MAX_WAIT = ((1 << 31) - 1) / 1000.0


class Evt:
    """A descriptor that stays ready until drained."""

    def __init__(self):
        self.level = 0              # events: 1 input, 4 output

    def ready(self):
        return bool(self.level & 1)

    def ready_for(self, mask):
        return bool(self.level & mask)


class Tm:
    __slots__ = ('id', 'mgr', 'exp', 'acts', 'repeat', 'handle', 'live',
                 'fired', 'group', 'lineage', 'due_polls', 'period')


class Sr:
    __slots__ = ('id', 'source', 'live', 'evt', 'fd', 'acts', 'timeout',
                 'timeouts', 'active', 'calls', 'due_polls', 'busy', 'handler',
                 'was', 'mask', 'deaf', 'idle')


class Loop:
    """The process: real event loop and timers, driven by actions."""

    def __init__(self, run):
        self.run = run
        self.sim = sim = run.sim
        self.node = node = Node(sim, 'loop', self.main)
        self.proc = node.proc = Proc(sim, run.net, node, 3000,
                                     Sched(run.scn.get('sched', {})))
        self.proc.observer = self
        self.proc.max_clock_reads = 100000
        self.inst = load_instance(sim, run.net, node)
        self.timers = {}
        self.srcs = {}
        self.mgrs = []
        self.batch = {}             # fd -> source registered at poll return
        self.batch_called = set()
        self.touched = set()        # fds whose registration changed since
        self.depth = 0
        self.stopped = False
        self.returned = False
        self.quiet = 0
        self.quiet_since = None
        self.turn_fires = {}
        self.order = 0
        self.stop_turns = 0
        self.cmd = None
        self.turn_jumped = False    # the clock was stepped during this turn

    # -- process --------------------------------------------------------
    def main(self, node):
        hook.tls.node = node
        el = self.inst.load('paf.eventloop')
        self.el = el
        self.tm = self.inst.load('paf.timer')
        self.loop = el.EventLoop()
        for n in range(self.run.scn['mgrs']):
            self.mgrs.append(self.make_manager())
        self.cmd = Evt()
        fd = self.proc.alloc_fd(self.cmd)
        self.mailbox = []
        src = el.Source()
        src.set_fd(fd, _select.EPOLLIN)
        self.cmd_fd = fd
        self.loop.add(src, self.command)
        self.loop.run()
        self.returned = True
        if not self.stopped:
            self.bad('stray-stop', "the loop returned although nothing "
                     "stopped it")
        self.loop.close()

    def make_manager(self):
        # the wiring of paf.server.Server
        source = self.el.Source()

        def changed():
            t = mgr.next_timeout()
            if t is not None:
                source.set_timeout(t)
            else:
                source.clear_timeout()
        mgr = self.tm.TimerManager(changed)
        self.loop.add(source, lambda: mgr.process())
        return mgr

    def command(self):
        self.progress()
        self.cmd.level = 0
        box, self.mailbox = self.mailbox, []
        for acts in box:
            self.perform(acts)

    def post(self, acts):
        self.mailbox.append(acts)
        self.cmd.level = 1
        self.sim.dirty = True

    def bad(self, code, text):
        self.sim.violate(code, TAGS, text)
        raise SimKill()

    def progress(self):
        self.quiet = 0
        self.quiet_since = None

    # -- actions ----------------------------------------------------------
    def perform(self, acts):
        for a in acts:
            if self.node.killed or self.sim.ended:
                raise SimKill()
            getattr(self, 'do_' + a[0])(*a[1:])

    def do_timer(self, tid, mgr, delay, relative, acts=(), repeat=0,
                 lineage=None):
        if tid in self.timers and self.timers[tid].live:
            return
        t = Tm()
        t.id, t.mgr, t.acts, t.repeat = tid, mgr % len(self.mgrs), acts, repeat
        t.period = delay
        t.exp = self.sim.wall() + delay
        t.live, t.fired, t.group = True, 0, None
        t.lineage = tid if lineage is None else lineage
        t.due_polls = 0
        self.timers[tid] = t
        self.sim.log('TIMER', tid, round(delay, 6))
        self.sim.count('timers')

        def handler():
            self.fire(t)
        if relative:
            t.handle = self.mgrs[t.mgr].add(handler, delay, relative=True)
        else:
            t.handle = self.mgrs[t.mgr].add(handler, t.exp)

    def do_twin(self, a, b, mgr, delay):
        """Equal timers: same handler, same time."""
        if (a in self.timers and self.timers[a].live) or \
           (b in self.timers and self.timers[b].live) or a == b:
            return
        group = []
        exp = self.sim.wall() + delay

        def handler():
            live = [t for t in group if t.live]
            if not live:
                self.bad('removed-fires', "twin timers %s/%s fired more often "
                         "than they were added" % (a, b))
            self.fire(live[0])
        for tid in (a, b):
            t = Tm()
            t.id, t.mgr, t.acts, t.repeat = tid, mgr % len(self.mgrs), (), 0
            t.period = delay
            t.exp, t.live, t.fired, t.group = exp, True, 0, group
            t.lineage, t.due_polls = tid, 0
            self.timers[tid] = t
            group.append(t)
            t.handle = self.mgrs[t.mgr].add(handler, exp)

    def do_untimer(self, tid):
        t = self.timers.get(tid)
        if t is None or not t.live:
            return
        t.live = False
        self.sim.log('UNTIMER', tid)
        self.sim.count('timers removed')
        if t.exp <= self.sim.wall():
            self.sim.probe('removed a timer that was due')
        self.mgrs[t.mgr].remove(t.handle)

    def do_src(self, sid, conf, acts=(), timeouts=()):
        if sid in self.srcs and self.srcs[sid].live:
            return
        s = Sr()
        s.id, s.acts, s.timeouts = sid, acts, list(timeouts)
        s.source = self.el.Source()
        s.live, s.evt, s.fd, s.timeout, s.active = True, None, None, None, 0
        s.calls, s.due_polls, s.was = 0, 0, None
        s.mask, s.deaf, s.idle = conf.get('mask', 1), 0, 0
        s.busy = conf.get('busy', False)
        self.srcs[sid] = s
        self.sim.log('SRC', sid)
        self.sim.count('sources')
        if conf.get('fd'):
            self.open_fd(s)
        if conf.get('timeout') is not None:
            s.timeout = self.sim.wall() + conf['timeout']
            s.source.set_timeout(s.timeout)
        if conf.get('active'):
            s.active = conf['active']
            s.source.set_active()

        def handler():
            self.called(s)
        self.loop.add(s.source, handler)

    def open_fd(self, s):
        s.evt = Evt()
        s.fd = self.proc.alloc_fd(s.evt)
        self.touched.add(s.fd)
        s.deaf = s.idle = 0
        s.source.set_fd(s.fd, s.mask)

    def close_fd(self, s):
        fd, s.fd, s.evt = s.fd, None, None
        self.touched.add(fd)
        s.source.clear_fd()
        self.proc.free_fd(fd)

    def do_unsrc(self, sid):
        s = self.srcs.get(sid)
        if s is None or not s.live:
            return
        s.live = False
        self.sim.log('UNSRC', sid)
        self.sim.count('sources removed')
        if s.timeout is not None and s.timeout <= self.sim.wall():
            self.sim.probe('removed a source that was due')
        if s.fd is not None:
            self.touched.add(s.fd)
        self.loop.remove(s.source)
        if s.fd is not None:
            self.proc.free_fd(s.fd)
        s.fd = s.evt = None

    def do_timeout(self, sid, delay):
        s = self.srcs.get(sid)
        if s is None or not s.live:
            return
        if s.timeout is not None and s.timeout <= self.sim.wall():
            self.sim.probe('re-armed a source that was due')
        s.due_polls = 0
        if delay is None:
            s.timeout = None
            s.source.clear_timeout()
        else:
            s.timeout = self.sim.wall() + delay
            s.source.set_timeout(s.timeout)

    def do_refd(self, sid):
        s = self.srcs.get(sid)
        if s is None or not s.live:
            return
        if s.fd is not None:
            self.close_fd(s)
            self.sim.probe('descriptor replaced')
        self.open_fd(s)

    def do_swapfd(self, sid):
        s = self.srcs.get(sid)
        if s is None or not s.live or s.fd is None:
            return
        old, s.fd = s.fd, None
        self.touched.add(old)
        self.sim.probe('descriptor swapped')
        self.open_fd(s)
        self.proc.free_fd(old)

    def do_poke(self, sid, what):
        s = self.srcs.get(sid)
        if s is None or s.live:
            return
        self.sim.probe('removed source used')
        if what == 'timeout':
            s.source.set_timeout(self.sim.wall() + 0.001)
        elif what == 'active':
            s.source.set_active()
        else:
            s.source.clear_timeout()
            s.source.clear_active()

    def do_nofd(self, sid):
        s = self.srcs.get(sid)
        if s is None or not s.live or s.fd is None:
            return
        self.close_fd(s)

    def do_mask(self, sid, mask):
        s = self.srcs.get(sid)
        if s is None or not s.live:
            return
        if s.mask != mask:
            s.mask, s.deaf, s.idle = mask, 0, 0
            if s.fd is not None:
                self.touched.add(s.fd)
                self.sim.probe('descriptor waits for other events')
        if s.fd is not None:
            s.source.set_fd(s.fd, mask)
            self.sim.dirty = True

    def do_ready(self, sid, mask=1):
        s = self.srcs.get(sid)
        if s is not None and s.live and s.evt is not None:
            s.evt.level |= mask
            self.sim.dirty = True

    def do_active(self, sid, n):
        s = self.srcs.get(sid)
        if s is None or not s.live:
            return
        s.active = n
        if n:
            s.source.set_active()
        else:
            s.source.clear_active()

    def do_busy(self, d):
        sim, node = self.sim, self.node
        sim.count('slow handlers')
        sim.at(sim.now + d, lambda: node)
        node.waiter = None
        sim.block(node)
        self.proc.clock_reads = 0

    def do_stop(self):
        self.stopped = True
        self.loop.stop()

    # -- calls --------------------------------------------------------------
    def fire(self, t):
        now = self.sim.wall()
        self.progress()
        self.sim.log('FIRE', t.id)
        self.sim.count('timers fired')
        if not t.live:
            self.bad('removed-fires', "timer %s was called after it had %s" %
                     (t.id, 'fired' if t.fired else 'been removed'))
        if now < t.exp - EPS and not self.turn_jumped:
            self.bad('timer-early', "timer %s was called %.6f s before its "
                     "expiry" % (t.id, t.exp - now))
        for o in self.timers.values():
            if o.live and o.mgr == t.mgr and o.exp < t.exp:
                self.bad('timer-order', "timer %s was called before timer %s, "
                         "which expires %.6f s earlier" %
                         (t.id, o.id, t.exp - o.exp))
        t.live = False
        t.fired += 1
        self.fair(('timer', t.mgr, t.lineage))
        if self.depth:
            self.sim.probe('nested call')
        self.depth += 1
        self.perform(t.acts)
        self.depth -= 1
        if t.repeat > 0:
            self.do_timer("%s'" % t.id, t.mgr, t.period, True, t.acts,
                          t.repeat - 1, t.lineage)

    def fair(self, key):
        """No single timer or source is served over and over while a ready
        descriptor waits."""
        n = self.turn_fires[key] = self.turn_fires.get(key, 0) + 1
        if n > 12 and not self.turn_jumped and any(s.live and s.evt is not None and
                          s.evt.level & s.mask
                          for s in self.srcs.values()):
            self.bad('fd-starved', "%s was served %d times in a row while a "
                     "descriptor was ready" % (key, n))

    def called(self, s):
        now = self.sim.wall()
        self.progress()
        self.sim.log('CALL', s.id)
        self.sim.count('source calls')
        if not s.live:
            self.bad('removed-fires', "the handler of source %s was called "
                     "after the source had been removed" % s.id)
        s.calls += 1
        why = []
        if s.timeout is not None and now >= s.timeout:
            why.append('timeout')
            s.timeout = None
            s.due_polls = 0
            self.fair(('source', s.id))
            if s.timeouts:
                s.timeout = now + s.timeouts.pop(0)
                s.source.set_timeout(s.timeout)
            else:
                s.source.clear_timeout()
        if s.active:
            why.append('active')
            s.active -= 1
            if not s.active:
                s.source.clear_active()
        if s.fd is not None and s.fd in self.batch and \
           s.fd not in self.batch_called:
            why.append('fd')
            self.batch_called.add(s.fd)
            if s.evt.level & s.mask:
                s.idle = 0
                if not s.busy:
                    s.evt.level &= ~s.mask
                    self.sim.probe('descriptor served')
            else:
                self.sim.probe('spurious descriptor call')
                if not self.run.scn.get('sched', {}).get('spurious_p'):
                    s.idle += 1
                if s.idle > 3 and s.fd not in self.touched:
                    self.bad('spin', "source %s is called again and again "
                             "although its descriptor is not ready for what "
                             "it waits for" % s.id)
        if not why and not (self.turn_jumped and s.timeout is not None):
            self.bad('source-unprompted', "the handler of source %s was "
                     "called although its descriptor was not reported, it is "
                     "not active and its timeout is %s" %
                     (s.id, 'not set' if s.timeout is None else
                      'due in %.6f s' % (s.timeout - now)))
        self.depth += 1
        if s.busy and 'fd' in why:
            self.do_busy(0.001)
        if s.calls <= 3:
            self.perform(s.acts)
        self.depth -= 1

    # -- sleeping -------------------------------------------------------------
    def due_items(self):
        for t in self.timers.values():
            if t.live:
                yield t, t.exp
        for s in self.srcs.values():
            if s.live and s.timeout is not None:
                yield s, s.timeout

    def poll_enter(self, proc, timeout, waiter):
        sim = self.sim
        wall = sim.wall()
        # everything reported by the last poll must have been handled
        for fd, s in self.batch.items():
            if s is not None and s.live and s.fd == fd and \
               fd not in self.touched and fd not in self.batch_called and \
               not self.stopped:
                self.bad('source-missed', "source %s was not called though "
                         "its descriptor was reported" % s.id)
        self.batch = {}
        self.batch_called = set()
        self.turn_fires = {}
        if self.stopped:
            self.stop_turns += 1
            if self.stop_turns > 3:
                self.bad('stop-ignored', "the loop keeps running after it was "
                         "stopped")
        for s in self.srcs.values():
            if s.live and s.active:
                self.bad('active-missed', "the loop waits for descriptors "
                         "although source %s is active" % s.id)
        first = None
        for item, exp in self.due_items():
            if exp <= wall:
                item.due_polls += 1
                if item.due_polls > 3:
                    self.bad('timer-starved', "%s is due for %.6f s and is "
                             "not called, however often the loop runs" %
                             (item.id, wall - exp))
            if first is None or exp < first:
                first = exp
        if first is not None:
            left = max(0.0, first - wall)
            if timeout < 0 or (left < MAX_WAIT - 1 and
                               timeout > left + 1e-3 + EPS):
                self.bad('oversleep', "the loop waits for %s although the "
                         "earliest expiry is %.6f s away" %
                         ('ever' if timeout < 0 else '%.6f s' % timeout,
                          left))
        if not waiter.ready() and timeout >= 0 and not self.stopped and \
           (first is None or timeout < min(first - wall, MAX_WAIT) - 1e-3):
            if self.quiet_since is None:
                self.quiet_since = sim.now
            self.quiet += 1
            if self.quiet > 20 and sim.now - self.quiet_since < 1.0:
                self.bad('spin', "the loop runs again and again (waiting for "
                         "%.6f s) although nothing is due" % timeout)
        else:
            self.progress()
        self.touched = set()
        if timeout != 0:
            sim.log('SLEEP', round(timeout, 6))

    def poll_return(self, proc, res):
        by_fd = {s.fd: s for s in self.srcs.values()
                 if s.live and s.fd is not None}
        self.batch = {fd: by_fd.get(fd) for fd, _ in res}
        for fd, s in by_fd.items():
            if not s.evt.level & s.mask or fd in self.batch:
                s.deaf = 0
            elif res and not proc.withheld:
                s.deaf += 1
                if s.deaf > 3:
                    self.bad('source-missed', "the loop does not notice that "
                             "the descriptor of source %s is ready" % s.id)
        self.touched = set()
        self.turn_jumped = False

    def final(self):
        """The process sleeps: nothing may be overdue."""
        if self.returned or self.node.state == 'dead':
            return
        for s in self.srcs.values():
            if s.live and s.evt is not None and s.evt.level & s.mask and \
               not self.stopped and self.node.waiter is not None and \
               not self.node.waiter.ready():
                self.sim.violate('source-missed', TAGS, "the loop sleeps "
                                 "although the descriptor of source %s is "
                                 "ready" % s.id)
                return
        for item, exp in self.due_items():
            # (a wall clock step leaves the sleep as it was)
            if exp < self.sim.wall() - 0.5 and not self.stopped and \
               not self.run.jumped:
                self.sim.violate('timer-starved', TAGS, "%s has been due for "
                                 "%.3f s" % (item.id, self.sim.wall() - exp))
                return


class LoopRun:
    def __init__(self, scn):
        self.scn = scn
        self.sim = sim = Sim(scn['seed'])
        sim.hash_salt = sim.rng("hash").randrange(HASH_MOD)
        self.net = Net(sim)
        sim.on_node_exit = self.on_exit
        self.jumped = False
        self.loop = Loop(self)
        self.signalled = False
        self.result = None
        self.ending = False

    def on_exit(self, node, status):
        sim = self.sim
        if status[0] == 'raised' and isinstance(status[1], HarnessError):
            sim.harness_error(status[1])
        elif status[0] == 'raised':
            e = status[1]
            text = ''.join(traceback.format_exception(type(e), e,
                                                      e.__traceback__))
            if 'sim/loop.py' in text.strip().splitlines()[-3] and \
               not isinstance(e, OSError):
                sim.harness_error(e)
                return
            sim.violate('loop-raised', TAGS, "%s left the event loop" %
                        text.strip().splitlines()[-1])
            sim.crash_text = text
        elif status[0] == 'return':
            sim.log('STOPPED')

    def op(self, op):
        if self.ending:
            return
        kind = op[1]
        p = self.loop.proc
        if kind == 'do':
            if self.loop.cmd is not None and not self.loop.stopped:
                self.loop.post(op[2])
        elif kind == 'ready':
            self.loop.do_ready(*op[2:])
        elif kind == 'busyfd':
            s = self.loop.srcs.get(op[2])
            if s is not None and s.live:
                s.busy = bool(op[3])
                if s.busy:
                    self.loop.do_ready(op[2], s.mask or 1)
        elif kind == 'jump':
            self.sim.clock_off += op[2]
            self.loop.turn_jumped = True
            self.sim.count('fault:clock-step')
            self.jumped = True
        elif kind == 'stall':
            self.net.forced_stall['loop'] = op[2]
        elif kind == 'signal':
            self.signal(op[2])

    def signal(self, signo):
        if self.loop.node.state == 'dead' or self.loop.cmd is None:
            return
        self.sim.count('fault:signal')
        self.loop.stopped = True
        self.loop.proc.deliver_signal(signo)

    def finish(self):
        """Nothing new happens any more: all that is due must get served, and
        a signal must end the loop."""
        if self.loop.node.state == 'dead':
            self.sim.end()
            return
        self.ending = True
        for s in self.loop.srcs.values():
            if s.busy and s.evt is not None:
                s.evt.level = 0
            s.busy = False
        self.sim.dirty = True
        self.net.forced_stall.clear()
        self.loop.proc.sched = Sched({})
        if self.loop.node.waiter is not None:
            self.loop.node.waiter.end_stall()
        self.sim.after(1.0, lambda: self.finish2() and None)

    def finish2(self):
        if self.loop.node.state == 'dead':
            self.sim.end()
            return
        self.loop.final()
        if not self.sim.ended:
            self.loop.stopped = True
            self.loop.proc.deliver_signal(15)
            self.sim.after(3.0, lambda: self.check_end() and None)

    def check_end(self):
        if self.loop.node.state != 'dead':
            self.sim.violate('signal-ignored', ['P14', 'P15'],
                             "the loop still runs 3 s after a signal")
        self.sim.probe('final-phase')
        self.sim.end()

    def execute(self, hang_cpu_s):
        sim = self.sim
        sim.at(0.0, lambda: sim.spawn(self.loop.node))
        last = 0.0
        for op in self.scn['ops']:
            last = max(last, op[0])
            sim.at(op[0], lambda op=op: self.op(op) and None)
        sim.at(last + self.scn['end']['tail'], lambda: self.finish() and None)
        res = sim.run(hang_cpu_s)
        if res == 'hang' and sim.violation is None:
            sim.violate('hang', TAGS, "the loop keeps computing")
        return res


def execute(scn, hang_cpu_s=10.0):
    run = LoopRun(scn)
    run.result = run.execute(hang_cpu_s)
    return run


# ---------------------------------------------------------------------------
# workload
# ---------------------------------------------------------------------------

def make(seed, tier='quick'):
    rng = random.Random("gen/P14/%s" % seed)
    mgrs = rng.choice([1, 1, 2, 3])
    grid = rng.choice([None, 0.01, 0.1])        # coarse: many equal times
    span = rng.choice([0.05, 1.0, 1.0, 20.0])
    slow = rng.random() < 0.3
    masks = rng.choice([0, 0, 2])

    def mask():
        return rng.choice([1, 1, 4, 4, 5, 0] if masks else [1])

    ids = [0]
    names = {'t': [], 's': []}
    fds = []

    def new(kind):
        ids[0] += 1
        n = kind + str(ids[0])
        names[kind].append(n)
        return n

    def delay(small=False):
        r = rng.random()
        if r < 0.08:
            d = 0
        elif r < 0.14:
            d = -rng.random() * span
        elif r < 0.17:
            d = rng.choice([3600.0, 1e7, 4e9, 1e-4])
        else:
            d = rng.random() * span
        if grid and d < 1e6:
            d = round(round(d / grid) * grid, 6)
        return round(d, 6)

    def some(kind):
        return rng.choice(names[kind]) if names[kind] else kind + '0'

    def acts(depth):
        out = []
        if depth > 2:
            return out
        for _ in range(rng.choice([0, 0, 1, 1, 2, 3])):
            out.append(act(depth + 1))
        return out

    def act(depth):
        kinds = ['timer'] * 6 + ['untimer'] * 4 + ['src'] * 2 + \
            ['unsrc'] * 2 + ['timeout'] * 3 + ['refd'] + ['nofd'] + \
            ['swapfd'] * 2 + ['poke'] + \
            ['ready'] * 2 + ['active'] + ['twin'] + ['mask'] * masks
        if slow:
            kinds += ['busy'] * 4
        k = rng.choice(kinds)
        if k == 'timer':
            d = delay()
            rep = 0
            if rng.random() < 0.15:
                rep = rng.choice([2, 20])
                d = max(d, 0.001)
            return ['timer', new('t'), rng.randrange(mgrs), d,
                    rng.random() < 0.5, acts(depth), rep]
        if k == 'twin':
            return ['twin', new('t'), new('t'), rng.randrange(mgrs), delay()]
        if k == 'untimer':
            return ['untimer', some('t')]
        if k == 'src':
            conf = {}
            if rng.random() < 0.6:
                conf['fd'] = 1
                conf['busy'] = rng.random() < 0.1
                conf['mask'] = mask()
            if rng.random() < 0.5:
                conf['timeout'] = delay()
            if rng.random() < 0.1:
                conf['active'] = rng.choice([1, 2, 5])
            n = new('s')
            if conf.get('fd'):
                fds.append(n)
            return ['src', n, conf, acts(depth),
                    [max(0.001, delay()) for _ in
                     range(rng.choice([0, 0, 1, 3, 20]))]]
        if k == 'unsrc':
            return ['unsrc', some('s')]
        if k == 'timeout':
            return ['timeout', some('s'),
                    None if rng.random() < 0.2 else delay()]
        if k in ('refd', 'nofd'):
            return [k, some('s')]
        if k == 'swapfd':
            return [k, rng.choice(fds) if fds else 's0']
        if k == 'poke':
            return [k, some('s'), rng.choice(['timeout', 'active', 'clear'])]
        if k == 'ready':
            return ['ready', rng.choice(fds) if fds else 's0', mask() or 1]
        if k == 'mask':
            return ['mask', rng.choice(fds) if fds else 's0', mask()]
        if k == 'active':
            return ['active', some('s'), rng.choice([0, 1, 2, 5])]
        return ['busy', rng.choice([0.001, 0.003, 0.02, 0.2]) *
                min(1.0, span)]

    ops = []
    t = 0.001
    n = rng.choice([3, 10, 30, 60])
    if tier == 'thorough' and rng.random() < 0.2:
        n *= 4
    bulk = rng.random() < 0.3
    if bulk:
        ops.append([t, 'do', [['timer', new('t'), rng.randrange(mgrs),
                               delay(), rng.random() < 0.5, acts(1), 0]
                              for _ in range(rng.choice([5, 20, 100]))]])
    if rng.random() < 0.3:
        # permanently busy descriptors beside the timers
        for _ in range(rng.choice([1, 3])):
            s = new('s')
            fds.append(s)
            ops.append([t, 'do', [['src', s, {'fd': 1, 'busy': True},
                                   [], []]]])
            ops.append([round(t + 0.001, 6), 'busyfd', s, 1])
            ops.append([round(t + rng.random() * min(span, 2.0) + 0.002, 6),
                        'busyfd', s, 0])
    if rng.random() < 0.2:
        # timers that take as long as their period
        p = rng.choice([0.001, 0.005])
        for _ in range(rng.choice([1, 2])):
            ops.append([t, 'do', [['timer', new('t'), rng.randrange(mgrs), p,
                                   True, [['busy', p * rng.choice(
                                       [0.5, 1.0, 1.5])]],
                                   rng.choice([20, 100])]]])
    for _ in range(n):
        r = rng.random()
        t = round(t + (0 if r < 0.3 else rng.random() * 0.01 if r < 0.5 else
                       rng.random() * span * 0.3), 6)
        if grid and rng.random() < 0.3:
            t = round((int(t / grid) + 1) * grid, 6)
        r = rng.random()
        if r < 0.65:
            ops.append([t, 'do', [act(0) for _ in
                                  range(rng.choice([1, 1, 2, 4]))]])
        elif r < 0.85:
            ops.append([t, 'ready', rng.choice(fds) if fds else 's0',
                        mask() or 1])
        elif r < 0.90:
            ops.append([t, 'stall', round(rng.random() * span * 0.3, 6)])
        elif r < 0.95:
            ops.append([t, 'busyfd', rng.choice(fds) if fds else 's0', 0])
        elif r < 0.97:
            ops.append([t, 'jump', rng.choice([-1, 1]) *
                        round(rng.random() * span, 6)])
        else:
            ops.append([t, 'do', [act(0)]])
    if rng.random() < 0.2:
        ops.append([t, 'signal', rng.choice([1, 2, 15])])
    elif rng.random() < 0.1:
        ops.append([t, 'do', [['stop']]])
    sched = {'late_p': rng.choice([0, 0.3, 0.8]),
             'late_max': rng.choice([0.0005, 0.01, 0.1]),
             'partial_p': rng.choice([0, 0, 0.4]),
             'spurious_p': rng.choice([0, 0, 0.2]),
             'early_p': rng.choice([0, 0, 0.3])}
    ops.sort(key=lambda o: o[0])
    return {'property': 'P14', 'seed': "P14/%s" % seed, 'kind': 'loop',
            'conf': {'domains': []}, 'sched': sched, 'mgrs': mgrs,
            'ops': ops, 'end': {'tail': round(span * 1.5 + 0.5, 3)}}
