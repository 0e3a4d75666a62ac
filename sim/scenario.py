"""Executes one scenario: a JSON document that determines a run completely.

scenario = {
  "property", "profile", "seed",
  "conf":  {"domains": [{name, sockets, vmin, vmax, idle_min, idle_max}],
            "limits": {"user": {...}, "total": {...}}},
  "sched": wake-up behaviour of the server process,
  "ops":   [[time, kind, args...], ...],
  "end":   {"audit": bool, "drain": seconds, "tail": seconds}
}

The scenario is the replay file.  Every random choice made while it runs
(latencies, wake-up delays, partial ready sets, ...) comes from streams named
after the seed and the entity, so removing one op does not disturb the rest.
"""

import errno
import gc
import io
import json
import logging as _logging
import logging.handlers            # noqa: F401  (must be really imported)
import random
import signal
import sys
import traceback
import types

from . import hook, spec
from .kernel import Sim, Node, SimKill, HarnessError
from .loader import Instance, Proxy, make_fakes
from .model import Oracle
from .net import Net, Proc, Sched, Link

HASH_MOD = 1 << 30


class FakeLogger:
    """Everything is formatted by the code and dropped here; the traceback of
    the last exception is kept for the report."""

    def __init__(self):
        self.handlers = []
        self.level = 10
        self.lines = 0
        self.last = None

    def _take(self, msg, *args, **kw):
        self.lines += 1

    debug = info = warning = error = critical = log = _take

    def exception(self, msg, *args, **kw):
        self.last = traceback.format_exc()

    def isEnabledFor(self, level):
        return True

    def setLevel(self, level):
        pass

    def getEffectiveLevel(self):
        return 10

    def addHandler(self, h):
        self.handlers.append(h)


def load_instance(sim, net, node):
    """Private copy of the code for a process, plus its fake OS."""
    fakes = make_fakes(node, sim, net)
    logger = FakeLogger()
    node.logger = logger
    fakes['logging'] = Proxy(_logging, getLogger=lambda *a: logger,
                             basicConfig=lambda *a, **kw: None)
    return Instance(fakes, sim)


def yaml_conf(conf):
    """The configuration file and the arguments of the server, in one of the
    documented ways to say the same."""
    style = conf.get('style', {})
    cmdline = bool(style.get('cmdline')) and all(
        d.get('name') is None and
        (d.get('vmin', 2), d.get('vmax', 3)) == (2, 3) and
        (d.get('idle_min', 4), d.get('idle_max', 30)) == (4, 30) and
        not any('+' in a for a in d['sockets']) and
        not any(d.get('tls', {}).values()) for d in conf['domains'])
    doms = []
    for d in conf['domains']:
        socks = list(d['sockets'])
        if style.get('sockdict'):
            socks = [{'addr': a} if i % 2 else a for i, a in enumerate(socks)]
        tls = d.get('tls', {})
        socks = [dict({'addr': a}, tls=tls[a]) if tls.get(a) else s
                 for a, s in zip(d['sockets'], socks)]
        x = {'addrs' if style.get('addrs') else 'sockets': socks}
        if d.get('name') is not None:
            x['name'] = d['name']
        for key, lo, hi, dlo, dhi in (
                ('protocol_version', d.get('vmin', 2), d.get('vmax', 3), 2, 3),
                ('idle', d.get('idle_min', 4), d.get('idle_max', 30), 4, 30)):
            y = {'min': lo, 'max': hi}
            if style.get('omit'):
                if lo == dlo:
                    del y['min']
                if hi == dhi:
                    del y['max']
            if key == 'idle' and style.get('legacy') and lo == dlo:
                x['max_idle_time'] = hi
            elif y or style.get('empty'):
                x[key] = y
        doms.append(x)
    doc = {'log': {'syslog': False, 'console': False, 'filter': 'debug'}}
    argv = []
    if not cmdline:
        doc['domains'] = doms
    else:
        if style['cmdline'] == 'both':
            # ignored when the command line names domains
            doc['domains'] = [{'sockets': ['ux:decoy'],
                               'idle': {'min': 1, 'max': 2},
                               'protocol_version': {'max': 2}}]
    res = {}
    for cls in ('user', 'total'):
        lim = conf.get('limits', {}).get(cls)
        if lim:
            res[cls] = dict(lim)
    if style.get('optc'):
        n = res.get('total', {}).get('clients')
        if n != 0:
            argv += ['-c', str(n or 0)]
            if style['optc'] != 'only':
                # (the one on the command line counts)
                res.setdefault('total', {})['clients'] = \
                    1 if style['optc'] == 'both' else (n or 0) + 2
            elif n is not None:
                del res['total']['clients']
    if res:
        doc['resources'] = res
    if cmdline:
        if all(len(d['sockets']) == 1 for d in conf['domains']):
            argv += [d['sockets'][0] for d in conf['domains']]
        else:
            for d in conf['domains']:
                argv += ['-m', '+'.join(d['sockets'])]
    return json.dumps(doc), argv            # JSON is YAML


def conf_style(seed):
    rng = random.Random('style/%s' % seed)
    style = {}
    if rng.random() < 0.5:
        for k in ('addrs', 'sockdict', 'omit', 'empty', 'legacy'):
            if rng.random() < 0.4:
                style[k] = True
        if rng.random() < 0.5:
            style['cmdline'] = rng.choice(['both', 'only'])
        if rng.random() < 0.3:
            style['optc'] = rng.choice(['both', 'only', 'above'])
    return style


class Server:
    """One incarnation of the server process."""

    def __init__(self, run, n):
        self.run = run
        sim, net = run.sim, run.net
        self.node = node = Node(sim, "srv%d" % n, self.main)
        node.role = 'server'
        node.server = self
        node.servers = []
        self.proc = proc = Proc(sim, net, node, 1000 + n,
                                Sched(run.scn.get('sched', {})))
        node.proc = proc
        self.oracle = Oracle(sim, net, run.scn['conf'])
        self.oracle.stop_check = run.scn.get('stop_check', True)
        # an earlier incarnation may have lived its life unobserved
        if n >= run.scn.get('mute', 0):
            proc.observer = self.oracle
        if n and run.scn.get('mode') == 'restart':
            self.oracle.extra_tags.add('P19')
        self.inst = load_instance(sim, net, node)
        conf, self.argv = yaml_conf(run.scn['conf'])
        self.inst.builtins['open'] = lambda *a, **kw: io.StringIO(conf)
        self.printed = []
        self.inst.builtins['print'] = \
            lambda *a, **kw: self.printed.append(' '.join(map(str, a)))
        self.text = None

    def main(self, node):
        hook.tls.node = node
        self.inst.load('paf.conf')
        daemon = self.inst.load('paf.daemon')
        daemon.main(['pafd', '-f', '/sim/pafd.conf', '-r', 'sim.hook.attach']
                    + self.argv)

    def up(self):
        return self.node.state not in ('dead',) and not self.proc.dead


class Actor:
    """A client speaking the protocol directly, driven by the scenario."""

    def __init__(self, run, name, link, opts):
        self.run = run
        self.name = name
        self.link = link
        self.opts = opts
        self.msgs = 0
        self.gone = None
        self.listener = None

    def received(self, data):
        self.msgs += 1
        if self.listener is not None:
            self.listener(self, data)
        reply = self.opts.get('reply')
        if reply is not None and b'"query"' in data:
            try:
                m = json.loads(data.decode())
            except ValueError:
                return
            if isinstance(m, dict) and m.get('ta-cmd') == 'track' and \
               m.get('msg-type') == 'notify' and \
               m.get('track-type') == 'query':
                out = json.dumps({'ta-cmd': 'track', 'ta-id': m.get('ta-id'),
                                  'msg-type': 'inform',
                                  'track-type': 'reply'}).encode()
                self.run.sim.after(reply, lambda: self.link.actor_send(out)
                                   and None)

    def disconnected(self, why):
        self.gone = why
        self.link.closed[1] = True
        if self.listener is not None:
            self.listener(self, None)


class Run:
    def __init__(self, scn):
        self.scn = scn
        self.sim = sim = Sim(scn['seed'])
        sim.subject = {scn['property']}
        sim.hash_salt = sim.rng("hash").randrange(HASH_MOD)
        self.net = Net(sim)
        self.net.on_crash = self.on_crash
        sim.on_node_exit = self.on_exit
        self.actors = {}
        self.server = None
        self.servers = []
        self.nsrv = 0
        self.measures = []
        self.held = []
        self.phase = 'run'
        self.restarted = 0
        self.extra = None           # set by profiles with client processes
        self.pending_attr = {}

    # ------------------------------------------------------------------
    def start_server(self):
        if self.server is not None and self.server.up():
            return
        srv = Server(self, self.nsrv)
        self.nsrv += 1
        self.server = srv
        self.servers.append(srv)
        self.sim.spawn(srv.node)

    def on_crash(self, node):
        self.sim.count('fault:server-crash')

    def on_exit(self, node, status):
        sim = self.sim
        if getattr(node, 'role', None) != 'server':
            if self.extra is not None:
                self.extra.on_exit(node, status)
            return
        proc, oracle = node.proc, node.server.oracle
        if status[0] == 'killed':
            return
        if status == ('exit', 0) and oracle.shutdown:
            left = [h for h in proc.handles.values()]
            if left:
                sim.violate('shutdown-leak', ['P15', 'P12'],
                            "server exited with open sockets: %s" %
                            sorted(getattr(h, 'name', None) or h.addr
                                   for h in left))
            sim.probe('orderly-shutdown')
            sim.log('EXITED', node.name)
        else:
            text = node.logger.last or '\n'.join(node.server.printed)
            if status[0] == 'raised':
                e = status[1]
                if isinstance(e, HarnessError):
                    sim.harness_error(e)
                    return
                text = ''.join(traceback.format_exception(
                    type(e), e, e.__traceback__))
            if text and 'HarnessError' in text:
                sim.harness_error(HarnessError(text))
                return
            tags = {'P01', self.scn['property']}
            if oracle.shutdown:
                tags.add('P15')
                if not oracle.turns:
                    tags.add('P15')
            last = (text or '').strip().splitlines()
            sim.violate('crash', tags, "server process ended with status %s: "
                        "%s" % (status[1], last[-1] if last else '?'))
            sim.crash_text = text
        proc.kill_cleanup()

    # -- operations -------------------------------------------------------
    def link_of(self, name):
        a = self.actors.get(name)
        return a.link if a is not None else None

    def op(self, op):
        kind, args = op[1], op[2:]
        return getattr(self, 'op_' + kind)(*args)

    def op_start(self):
        if self.phase == 'run' or not (self.server and self.server.up()):
            if self.servers and not self.server.up():
                self.restarted += 1
            self.start_server()

    def op_connect(self, name, addr, opts):
        if name in self.actors:
            return
        remote = opts.get('remote') or 'ux:' + name
        if not remote.startswith('ux:'):
            # no two connections of the same remote port at the same time
            used = {l.remote_addr for l in self.net.links if not l.closed[0]}
            host, port = remote.rsplit(':', 1)
            while remote in used:
                port = int(port) + 1
                remote = '%s:%s' % (host, port)
        link = Link(self.net, name, addr, remote,
                    dict(opts, ski=bytes.fromhex(opts['ski'])
                         if opts.get('ski') else None))
        for n, c in (opts.get('attr_faults') or {}).items():
            link.attr_faults[n] = c
        a = Actor(self, name, link, opts)
        self.actors[name] = a
        if opts.get('stalled'):
            link.stall_read = True
        self.net.raw_connect(link, a)

    def op_send(self, name, *msgs):
        link = self.link_of(name)
        if link is not None:
            how = spec.dialect(random.Random('json/%s/%s' % (
                self.scn['seed'], name)))
            for m in msgs:
                link.actor_send(spec.wire(m, how))

    def op_raw(self, name, text):
        link = self.link_of(name)
        if link is not None and text:
            link.actor_send(text.encode('latin-1'))

    def op_close(self, name, mode='close'):
        link = self.link_of(name)
        if link is not None and not link.closed[1]:
            if mode != 'close':
                self.sim.count('fault:connection-' + mode)
            link.actor_close(mode)

    def op_stall(self, name, on):
        link = self.link_of(name)
        if link is not None:
            if on and not link.stall_read:
                self.sim.count('fault:client-stops-reading')
            link.stall_read = bool(on)
            if not on:
                link.drain_actor()

    def op_part(self, name, on):
        link = self.link_of(name)
        if link is None:
            return
        if on:
            if not link.partitioned:
                self.sim.count('fault:partition')
            link.partitioned = True
        elif not link.closed[1]:
            link.heal()

    def op_rst(self, name):
        """The network resets the connection under both ends."""
        link = self.link_of(name)
        if link is None or link.closed[1]:
            return
        self.sim.count('fault:connection-reset')
        link.push(1, ('rst',))
        link.push(0, ('rst',))

    def op_jump(self, d):
        self.sim.count('fault:clock-step')
        self.sim.log('JUMP', d)
        self.sim.clock_off += d
        if self.server is not None:
            self.server.oracle.jumped(d)

    def op_keepalive(self):
        """The kernel gives up on all peers which vanished."""
        v3 = set()
        if self.server is not None and self.server.up():
            for d in self.server.oracle.domains:
                conns = d.branches[0].conns
                v3.update(n for n in conns
                          if conns[n].up and conns[n].version >= 3)
        for link in self.net.links:
            link.keepalive_expired(link.name in v3)

    def op_sleep(self, d):
        if self.server is not None and self.server.up():
            self.net.forced_stall[self.server.node.name] = d

    def op_fault(self, name, what, err, n=1):
        link = self.link_of(name)
        if link is None:
            return
        q = link.send_faults if what == 'send' else link.recv_faults
        for _ in range(n):
            q.append(getattr(errno, err))
        self.sim.dirty = True

    def op_faultacc(self, addr, err, n=1):
        lst = self.net.listeners.get(addr)
        if lst is not None:
            for _ in range(n):
                lst.accept_faults.append(getattr(errno, err))
            self.sim.dirty = True

    def op_signal(self, signo, n=0):
        srv = self.server
        if srv is None or not srv.up():
            return
        if n:
            srv.proc.signals_in.append([n, signo])
            srv.proc.on_signal = srv.oracle.signalled
            return
        self.sim.count('fault:signal')
        self.sim.log('SIGNAL', signo)
        # a signal before the handlers are installed kills any process
        if signo not in srv.proc.installed:
            return
        srv.oracle.signalled()
        if not srv.proc.deliver_signal(signo):
            self.sim.violate('signal-kills', ['P15'],
                             "signal %d terminates the process abruptly" %
                             signo)

    def op_crash(self, n=0):
        srv = self.server
        if srv is None or not srv.up():
            return
        if n:
            srv.proc.crash_in = n
        else:
            self.net.crash(srv.node)

    def op_measure(self, tag, stay=()):
        srv = self.server
        if srv is None or not srv.up() or srv.node.state != 'blocked':
            return
        b = [d.branches[0] for d in srv.oracle.domains]
        here = sorted(n for d in srv.oracle.domains for n in d.watch)
        if set(here) <= set(stay) and \
           not any(x.conns[n].pending for x in b for n in x.conns
                   if n in here):
            gc.collect()
            self.measures.append((tag,) + measure(srv))
            self.held.append((here, [(sid, len(repr(sv.props)))
                                     for x in b
                                     for sid, sv in sorted(x.svcs.items())],
                              [len(x.conns[n].exp) for x in b
                               for n in here if n in x.conns]))
            if here or self.held[-1][1]:
                self.sim.probe('measure-resident')

    def op_mark(self, *args):
        pass

    # -- the end of a run ---------------------------------------------------
    def calm(self):
        """Faults stop; everything in flight may arrive."""
        self.phase = 'calm'
        srv = self.server
        if srv is not None:
            srv.proc.sched = Sched({'late_p': 0.2, 'late_max': 0.001})
            srv.proc.crash_in = None
        self.net.forced_stall.clear()
        for node in self.sim.nodes:
            if node.waiter is not None:
                node.waiter.end_stall()
        for name in sorted(self.actors):
            link = self.actors[name].link
            link.eagain_p = 0.0
            link.send_faults.clear()
            link.recv_faults.clear()
            link.attr_faults = {n: c for n, c in link.attr_faults.items()
                                if n == 'tls.peer_subject_key_id'}
            if not link.closed[1]:
                link.heal()
                if link.stall_read:
                    link.stall_read = False
                    link.drain_actor()
        for addr in sorted(self.net.listeners):
            self.net.listeners[addr].accept_faults.clear()
        self.sim.dirty = True

    def audit(self, tag):
        doms = self.scn['conf']['domains']
        for i, d in enumerate(doms):
            name = "%s%d" % (tag, i)
            v = d.get('vmax', 3)
            self.op_connect(name, d['sockets'][-1], {'remote': 'ux:' + name,
                                                     'reply': 0.001})
            self.op_send(name,
                         {'ta-cmd': 'hello', 'ta-id': 0, 'msg-type': 'request',
                          'client-id': 7777000 + i,
                          'protocol-minimum-version': d.get('vmin', 2),
                          'protocol-maximum-version': v},
                         {'ta-cmd': 'services', 'ta-id': 1,
                          'msg-type': 'request'},
                         {'ta-cmd': 'subscriptions', 'ta-id': 2,
                          'msg-type': 'request'},
                         {'ta-cmd': 'clients', 'ta-id': 3,
                          'msg-type': 'request'},
                         {'ta-cmd': 'subscribe', 'ta-id': 4,
                          'subscription-id': 888000 + i,
                          'msg-type': 'request'})

    def close_all(self):
        for name in sorted(self.actors):
            self.op_close(name, 'close')
        self.op_keepalive()

    def max_expiry(self):
        left = 0.0
        wall = self.sim.wall()
        if self.server is None or not self.server.up():
            return 0.0
        for d in self.server.oracle.domains:
            for b in d.branches:
                for s in b.svcs.values():
                    t = s.ttl if s.orphan_since is None else \
                        s.orphan_since + s.ttl - wall
                    if t < 1000:
                        left = max(left, t)
        return left

    def plan_end(self, t):
        end = self.scn.get('end', {})
        sim = self.sim
        drain = end.get('drain', 3.0)
        sim.at(t, lambda: self.calm() and None)

        def restart():
            if (self.server is None or not self.server.up()) and \
               end.get('restart', True) and self.servers and \
               not self.server.oracle.shutdown:
                self.op_start()
        sim.at(t + 0.01, lambda: restart() and None)

        def stage2():
            if self.server is None or not self.server.up():
                sim.end()
                return
            if end.get('audit', True):
                self.audit('audA')
            sim.after(end.get('tail', 1.0), lambda: stage3() and None)

        def stage3():
            if not end.get('close', True):
                sim.after(0.0, lambda: stage5() and None)
                return
            self.close_all()
            sim.after(0.5 + self.max_expiry(), lambda: stage3b() and None)

        def stage3b():
            sim.after(0.5 + self.max_expiry(), lambda: stage4() and None)

        def stage4():
            if end.get('audit', True):
                self.audit('audB')
            sim.after(1.0, lambda: stage4b() and None)

        def stage4b():
            self.close_all()
            sim.after(3.5, lambda: stage5() and None)

        def stage5():
            if self.server is None or not self.server.up():
                sim.end()
                return
            if end.get('close', True):
                self.check_released()
            sim.probe('final-phase')
            if end.get('sigterm', True):
                self.op_signal(signal.SIGTERM)
                sim.after(1.0, lambda: stage6() and None)
            else:
                sim.end()

        def stage6():
            if self.server.up():
                sim.violate('no-exit', ['P15'], "server still runs a second "
                            "after SIGTERM")
            sim.end()

        sim.at(t + drain, lambda: stage2() and None)

    def check_released(self):
        sim, proc = self.sim, self.server.proc
        n_listen = sum(len(d['sockets'])
                       for d in self.scn['conf']['domains'])

        def excess():
            conns = [h for h in proc.handles.values() if hasattr(h, 'link')]
            return conns, len(proc.fds) - len(proc.handles) - 2
        conns, fds = excess()
        if conns or fds > 0:
            gc.collect()
            conns, fds = excess()
        if conns:
            sim.violate('socket-leak', ['P12', 'P18'],
                        "all clients are gone but the server still holds "
                        "%s" % [c.name for c in conns])
        elif fds > 0:
            sim.violate('fd-leak', ['P12', 'P18'],
                        "server holds %d unexpected descriptors" % fds)
        elif len(proc.attr_maps) > n_listen:
            sim.violate('attr-map-leak', ['P18'],
                        "%d attribute maps were never destroyed" %
                        len(proc.attr_maps))

    # ------------------------------------------------------------------
    def execute(self, hang_cpu_s=10.0):
        sim = self.sim
        ops = self.scn['ops']
        last = 0.0
        if self.scn.get('autostart', True):
            sim.at(0.0, lambda: self.start_server())
        for op in ops:
            last = max(last, op[0])
            sim.at(op[0], lambda op=op: self._op(op))
        self.plan_end(max(last, self.scn.get('t_end', 0.0)) + 0.05)
        res = sim.run(hang_cpu_s)
        if res == 'hang' and sim.violation is None:
            sim.violate('hang', ['P01', 'P14', self.scn['property']],
                        "server keeps computing without ever returning to "
                        "its event loop")
        if sim.violation is None and sim.error is None:
            self.check_measures()
        return res

    def _op(self, op):
        if self.phase != 'run':
            return
        self.op(op)

    def check_measures(self):
        ms = self.measures
        if len(ms) < 4 or any(h != self.held[1] for h in self.held[2:]):
            return
        tail = [m[1] for m in ms[1:]]
        if all(b > a for a, b in zip(tail, tail[1:])):
            grown = {}
            for k in ms[-1][2]:
                d = ms[-1][2][k] - ms[1][2].get(k, 0)
                if d > 0:
                    grown[k] = d
            self.sim.violate('memory-growth', ['P18'],
                             "the server retains more objects after every "
                             "repetition of the same activity: %s (%s)" %
                             (tail, sorted(grown.items())))


def measure(srv):
    """Number of objects reachable from the process's own state."""
    mods = srv.inst.modules
    seen = set()
    stack = [m.__dict__ for m in mods.values()]
    stack += srv.node.servers
    skip = (types.ModuleType, types.FrameType, types.CodeType,
            types.BuiltinFunctionType)
    builtin_ids = {id(srv.inst.builtins)}
    total = 0
    kinds = {}
    while stack:
        o = stack.pop()
        i = id(o)
        if i in seen or i in builtin_ids:
            continue
        seen.add(i)
        t = type(o)
        if isinstance(o, skip):
            continue
        if isinstance(o, type):
            if not o.__module__.startswith('paf'):
                continue
        elif t.__module__.startswith('sim') or \
                t.__module__ in ('logging', 'threading'):
            continue
        if gc.is_tracked(o) or t in (str, bytes, int, float):
            total += 1
            kinds[t.__name__] = kinds.get(t.__name__, 0) + 1
        stack.extend(gc.get_referents(o))
    return total, kinds


def execute(scn, hang_cpu_s=10.0):
    run = Run(scn)
    res = run.execute(hang_cpu_s)
    run.result = res
    return run
