"""Discrete-event kernel with baton-passed node threads.

Exactly one thread runs at any time.  Nodes (server processes and client
processes under test) are threads only because the code under test blocks
inside calls such as epoll.poll(); who runs next, and at which simulated
time, is decided solely by the event heap below, which is filled from seeded
PRNG streams.  Simulated time only advances while every node is blocked.
"""

import gc
import heapq
import random
import threading
import time as _real_time

BASE_WALL = 1700000000.0


class SimKill(BaseException):
    """Raised inside a node to make it vanish (crash, end of run)."""


class HarnessError(Exception):
    pass


class Violation:
    def __init__(self, code, tags, text, now):
        self.code = code
        self.tags = tuple(sorted(set(tags)))
        self.text = text
        self.now = now

    def __repr__(self):
        return "[%s] t=%.6f tags=%s: %s" % (self.code, self.now,
                                            ",".join(self.tags), self.text)


class Node:
    def __init__(self, sim, name, target):
        self.sim = sim
        self.name = name
        self.target = target
        self.lock = threading.Lock()
        self.lock.acquire()
        self.state = 'new'          # new, running, blocked, dead
        self.killed = False
        self.waiter = None          # object with ready()
        self.wake_seq = 0
        self.wake_at = None
        self.calls = 0              # transport calls in the current turn
        self.total_calls = 0
        self.rng = sim.rng("node/" + name)
        self.thread = None
        self.exit_status = None
        self.error = None

    def start(self):
        self.thread = threading.Thread(target=self._main, daemon=True)
        self.thread.start()

    def _main(self):
        self.lock.acquire()
        sim = self.sim
        try:
            if self.killed:
                return
            self.state = 'running'
            if self.shared is not None:
                self.shared.node = self
            try:
                self.target(self)
                status = ('return', 0)
            except SimKill:
                status = ('killed', None)
            except SystemExit as e:
                status = ('exit', e.code)
            except BaseException as e:          # noqa: B902
                status = ('raised', e)
            if not self.killed:
                self.exit_status = status
                self.state = 'dead'
                try:
                    sim.node_exited(self, status)
                except SimKill:
                    pass
                except BaseException as e:      # noqa: B902
                    sim.harness_error(e)
        finally:
            self.state = 'dead'
            sim.retire(self)


class Sim:
    def __init__(self, seed):
        self.seed = seed
        self.now = 0.0
        self.clock_off = 0.0
        self.heap = []
        self.seq = 0
        self.events = 0            # events executed (progress counter)
        self.trace = []
        self.subject = set()    # property the run is about
        self.violation = None
        self.error = None
        self.ended = False
        self.dirty = False
        self.nodes = []
        self.main_lock = threading.Lock()
        self.main_lock.acquire()
        self.finishing = None
        self.max_trace = 200000
        self.stats = {}
        self.probes = {}
        self.hash_seq = 0
        self.on_node_exit = None
        self.max_events = 2000000

    # -- randomness -------------------------------------------------------
    def rng(self, name):
        return random.Random("%s/%s" % (self.seed, name))

    # -- clock ------------------------------------------------------------
    def wall(self):
        return BASE_WALL + self.now + self.clock_off

    # -- trace / statistics -------------------------------------------------
    def log(self, *rec):
        if len(self.trace) < self.max_trace:
            self.trace.append((round(self.now, 9),) + rec)

    def count(self, what, n=1):
        self.stats[what] = self.stats.get(what, 0) + n

    def probe(self, what, n=1):
        self.probes[what] = self.probes.get(what, 0) + n

    # -- outcome ------------------------------------------------------------
    def violate(self, code, tags, text):
        if code in ('hang', 'blocking-call'):
            # whatever the run was after, it is not going to happen
            tags = set(tags) | self.subject
        if self.violation is None and self.error is None:
            self.violation = Violation(code, tags, text, self.now)
            self.log('VIOLATION', code, text)
        self.ended = True

    def harness_error(self, e):
        if self.error is None:
            self.error = e
        self.ended = True

    def end(self):
        self.ended = True

    # -- events ---------------------------------------------------------------
    def at(self, t, fn):
        if t < self.now:
            t = self.now
        self.seq += 1
        heapq.heappush(self.heap, (t, self.seq, fn))

    def after(self, d, fn):
        self.at(self.now + d, fn)

    # -- scheduling -----------------------------------------------------------
    def spawn(self, node):
        """To be called from an event; the node runs right after the event."""
        self.nodes.append(node)
        node.start()
        node.state = 'blocked'
        self.at(self.now, lambda: node)

    def _loop(self):
        """Run events until a node gets the turn; None means the run ended."""
        heap = self.heap
        while True:
            if self.ended:
                return None
            if self.dirty:
                self.dirty = False
                self._check_waiters()
            if not heap:
                self.ended = True
                return None
            t, _, fn = heapq.heappop(heap)
            self.now = t
            self.events += 1
            if self.events > self.max_events:
                raise HarnessError("event budget exhausted")
            node = fn()
            if isinstance(node, Node):
                if node.state == 'blocked' and not node.killed:
                    node.calls = 0
                    return node

    def _check_waiters(self):
        for n in self.nodes:
            if n.state == 'blocked' and n.waiter is not None:
                w = n.waiter
                if not w.scheduled and w.ready():
                    w.schedule_wake()

    def _next(self):
        try:
            return self._loop()
        except Exception as e:      # a bug of the harness, never of the code
            self.harness_error(e)
            return None

    def block(self, node):
        """Called in node's thread: give the turn away until woken."""
        node.state = 'blocked'
        nxt = self._next()
        if node.killed:
            # killed by an event that was executed in our own thread: give
            # the turn away as soon as the stack is unwound
            node.pending = (nxt,)
            raise SimKill()
        if nxt is not node:
            self._hand(nxt)
            node.lock.acquire()
            if node.killed:
                raise SimKill()
        node.state = 'running'
        if node.shared is not None:
            node.shared.node = node     # one of several threads of a process

    def _hand(self, nxt):
        if nxt is None:
            self.main_lock.release()
        else:
            nxt.lock.release()

    def retire(self, node):
        """Called last in a node's thread."""
        if self.finishing is not None:
            self.finishing.release()
            return
        if node.pending is not None:
            self._hand(node.pending[0])
            return
        if node.killed and node.zombie:
            # killed by somebody who keeps the baton and waits for us
            node.gone.release()
            return
        nxt = self._next()
        self._hand(nxt)

    def node_exited(self, node, status):
        self.log('EXIT', node.name, status[0],
                 status[1] if isinstance(status[1], (int, type(None)))
                 else type(status[1]).__name__)
        if self.on_node_exit is not None:
            self.on_node_exit(node, status)

    def kill(self, node):
        """Make a blocked node vanish.  Called with the baton held."""
        if node.state == 'dead' or node.killed:
            return
        node.killed = True
        node.waiter = None
        if node.thread is threading.current_thread():
            node.state = 'dead'
            return
        node.zombie = True
        node.gone = threading.Lock()
        node.gone.acquire()
        node.lock.release()
        node.gone.acquire()
        node.state = 'dead'

    def run(self, hang_cpu_s=20.0):
        """Main thread: run until the end.  Returns 'ok' or 'hang'."""
        gc_was = gc.isenabled()
        gc.disable()
        try:
            nxt = self._next()
            if nxt is not None:
                self._hand(nxt)
                if not self._wait_main(hang_cpu_s):
                    return 'hang'
            # take down the remaining nodes
            self.finishing = threading.Lock()
            self.finishing.acquire()
            for n in self.nodes:
                if n.thread.is_alive() and n.state != 'dead':
                    n.killed = True
                    n.lock.release()
                    if not self.finishing.acquire(timeout=60):
                        return 'hang'
                    n.thread.join(60)
            return 'ok'
        finally:
            if gc_was:
                gc.enable()

    def _wait_main(self, hang_cpu_s):
        last = (self.events, self.total_calls())
        cpu = _real_time.process_time()
        while not self.main_lock.acquire(timeout=1.0):
            cur = (self.events, self.total_calls())
            c = _real_time.process_time()
            if cur != last:
                last, cpu = cur, c
            elif c - cpu > hang_cpu_s:
                return False
        return True

    def total_calls(self):
        return sum(n.total_calls for n in self.nodes)


Node.zombie = False
Node.pending = None
Node.gone = None
Node.shared = None
