"""P16: the client library against the real server and scripted peers."""

import json
import random
import signal

from . import spec
from .clients import NodeRun
from .gen import props, filter_text, bad_filter, STRS


class ApiRun(NodeRun):
    def plan_end(self, t):
        sim = self.sim
        sim.at(t, lambda: self.calm() and None)

        def stage2(n=0):
            # with a live server and no faults every call ends; not at once,
            # where much is under way on a slow connection, but messages
            # have to keep coming
            pending = False
            if self.server is not None and self.server.up():
                for name in sorted(self.nodes):
                    c = self.nodes[name]
                    if c.exited or not c.oracle.calls or c.cm is None:
                        continue
                    if c.cm.end is None or c.cm.end.link.stub is not None:
                        continue
                    idle = sim.now - max(c.oracle.calls[-1].start,
                                         c.cm.last_rx)
                    if idle >= 2.9 or n >= 200:
                        sim.violate('call-hangs', ['P16'],
                                    "%s: %s() has not returned %.1f s after "
                                    "all faults ended, with a live server and "
                                    "nothing received for %.1f s" %
                                    (name, c.oracle.calls[-1].name,
                                     sim.now - t, idle))
                        return
                    pending = True
            if pending:
                sim.after(0.5, lambda: stage2(n + 1) and None)
                return
            # now every peer goes away
            for s in self.stubs:
                s.close_all()
                self.net.listeners.pop(s.addr, None)
            if self.server is not None and self.server.up():
                self.phase = 'end'
                self.op_signal(signal.SIGTERM)
            sim.after(1.0, lambda: stage3() and None)

        def stage3():
            for name in sorted(self.nodes):
                c = self.nodes[name]
                if not c.exited and c.oracle.calls:
                    sim.violate('call-hangs', ['P16'], "%s: %s() hangs on a "
                                "dead connection" %
                                (name, c.oracle.calls[-1].name))
                    return
                if not c.exited:
                    c.post(['stop'])
            sim.after(1.0, lambda: stage4() and None)

        def stage4():
            for name in sorted(self.nodes):
                c = self.nodes[name]
                if not c.exited:
                    sim.violate('call-hangs', ['P16'],
                                "%s does not end" % name)
                    return
            sim.probe('final-phase')
            sim.end()
        sim.at(t + 3.0, lambda: stage2() and None)


METHODS = ['publish', 'unpublish', 'subscribe', 'unsubscribe', 'services',
           'subscriptions', 'clients', 'ping', 'hello', 'track']


def call(rng, st):
    """One API call: [method, args, async]."""
    w = [8, 3, 4, 2, 4, 2, 2, 3, .7, .7]
    m = rng.choices(METHODS, w)[0]
    a = []
    if m == 'publish':
        sid = rng.choice([0, 1, 2, 3, (1 << 63) - 1])
        last = st['gen'].get(sid, 0)
        g = max(0, last + rng.choice([1, 1, 1, 0, -1]))
        st['gen'][sid] = max(last, g)
        a = [sid, g, props(rng), rng.choice([0, 1, 2, 5])]
        if rng.random() < 0.03:
            a[2] = {'big': ['x' * rng.choice([3000, 30000, 66000])]}
        if rng.random() < 0.02:
            a[0] = -1
    elif m == 'unpublish':
        a = [rng.choice([0, 1, 2, 3, 77])]
    elif m == 'subscribe':
        st['sub'] += rng.choice([0, 1, 1, 1])
        a = [st['sub'], None if rng.random() < 0.5 else
             filter_text(rng) if rng.random() < 0.85 else bad_filter(rng)]
    elif m == 'unsubscribe':
        a = [rng.randint(max(0, st['sub'] - 3), st['sub'])]
    elif m == 'services':
        a = [None if rng.random() < 0.5 else
             filter_text(rng) if rng.random() < 0.85 else bad_filter(rng)]
    elif m == 'hello' and rng.random() < 0.5:
        a = rng.choice([[2, 3], [2, 2], [3, 3], [4, 9], [0, 1]])
    return [m, a, rng.random() < 0.35]


def domain_file(rng, addr, vr):
    """A domain file, the first server of which is the wanted one."""
    if vr == [2, 3] and rng.random() < 0.5:
        return rng.choice(['', '# the servers\n', '\n  \n']) + addr + \
            rng.choice(['', '\n', ' \n\nux:other\n'])
    objs = [{'address': addr}, {'address': 'ux:other', 'minProtocolVersion': 3}]
    if vr[0] != 2 or rng.random() < 0.5:
        objs[0]['minProtocolVersion'] = vr[0]
    if vr[1] != 3 or rng.random() < 0.5:
        objs[0]['maxProtocolVersion'] = vr[1]
    for o in objs:
        if rng.random() < 0.4:
            o.update({k: '/cred/%s/%s.pem' % (k, rng.choice('ab'))
                      for k in spec.DOMAIN_TLS if rng.random() < 0.6})
    return rng.choice(['', '\n \t']) + \
        json.dumps({'servers': objs[:rng.choice([1, 2])]})


def make(seed, tier='quick'):
    rng = random.Random("gen/P16/%s" % seed)
    hrng = random.Random("gen/P16/how/%s" % seed)
    real = rng.random() < 0.6
    ops = []
    t = 0.0
    lo, hi = rng.choice([(4, 30), (1, 2), (1, 5), (2, 8)])
    conf = {'domains': [{'sockets': ['ux:d0'], 'idle_min': lo,
                         'idle_max': hi}], 'limits': {}}
    if rng.random() < 0.15:
        conf['limits'] = {'user': {'services': 2, 'subscriptions': 2}}
    sched = {}
    if rng.random() < 0.5:
        sched = {'late_p': 0.5, 'late_max': rng.choice([0.0005, 0.01])}
    addrs = []
    if real:
        addrs.append('ux:d0')
    if not real or rng.random() < 0.2:
        for k in range(rng.choice([1, 1, 2])):
            a = 'ux:stub%d' % k
            addrs.append(a)
            ops.append([0.0, 'stub', a, {
                'bad_p': rng.choice([0, 0.02, 0.1, 0.3]),
                'silent_p': rng.choice([0, 0, 0.03]),
                'fail_p': rng.choice([0, 0.05, 0.3]),
                'badver_p': rng.choice([0, 0, 0.1])}])
    nodes = []
    for k in range(rng.choice([1, 1, 2, 2, 3])):
        link = {'lat': rng.choice([[0.0002, 0.002], [0, 0], [0.001, 0.05]])}
        if rng.random() < 0.3:
            link['cwin'] = rng.choice([1, 2, 5])
        if rng.random() < 0.3:
            link['swin'] = rng.choice([1, 2, 5, 50])
        if rng.random() < 0.3:
            link['ceagain_p'] = rng.choice([0.1, 0.5])
        if rng.random() < 0.2:
            link['eagain_p'] = 0.2
        nc = {'link': link, 'sched': dict(sched)}
        if rng.random() < 0.2:
            nc['sched']['spurious_p'] = 0.2
        if rng.random() < 0.2:
            nc['sched'].update(stall_p=0.05, stall_max=0.3)
        name = 'p%d' % k
        ops.append([0.0, 'node', name, 'script', nc])
        nodes.append((name, {'gen': {}, 'sub': 0, 'cid': 10 + k}))
    n = rng.randint(5, 40)
    p_fault = rng.choice([0, 0.05, 0.2])
    long_run = rng.random() < 0.03
    t = 0.01
    up = set()
    for _ in range(n):
        name, st = rng.choice(nodes)
        r = rng.random()
        if name not in up or r < 0.06:
            addr = rng.choice(addrs) if rng.random() < 0.97 else 'ux:nobody'
            vr = rng.choice([[2, 3], [2, 3], [2, 3], [2, 2], [3, 3]])
            cid = st['cid'] if rng.random() < 0.9 else \
                rng.choice([0, 10, 11, (1 << 63) - 1])
            op = [t, 'do', name, 'connect', addr, cid,
                  rng.random() < 0.5, vr, rng.random() < 0.3]
            if hrng.random() < 0.1:
                op[5] = None
            h = hrng.random()
            if h < 0.15:
                op.append(['name', domain_file(hrng, addr, vr)])
            elif h < 0.25 and vr == [2, 3]:
                op.append(['addr'])
            ops.append(op)
            up.add(name)
        elif r < 0.09:
            ops.append([t, 'do', name, 'close'])
            up.discard(name)
        elif r < 0.15:
            ops.append([t, 'do', name, 'inform',
                        rng.choice(['tracker', 'tracker', 'track'])])
        elif r < 0.15 + p_fault:
            f = rng.random()
            if f < 0.25:
                ops.append([t, 'nfault', name, rng.choice(['send', 'recv']),
                            rng.choice(['EAGAIN', 'EAGAIN', 'EPIPE',
                                        'ECONNRESET', 'ETIMEDOUT', 'EPROTO',
                                        'ENOBUFS']),
                            rng.choice([1, 1, 3])])
            elif f < 0.4:
                ops.append([t, 'nrst', name])
            elif f < 0.55:
                ops.append([t, 'npart', name, 1])
                ops.append([t + rng.choice([0.01, 0.5, 4]), 'npart', name, 0])
            elif f < 0.65:
                ops.append([t, 'ncrash', name, rng.choice([0, 0, 0.5])])
                up.discard(name)
            elif f < 0.8 and real:
                ops.append([t, 'crash', rng.choice([0, 1, 3, 8]),
                            rng.choice([0, 0, 0.5])])
                ops.append([t + rng.choice([0.001, 0.3]), 'start'])
            elif f < 0.85 and real:
                ops.append([t, 'sleep', rng.choice([0.1, 1.0])])
            elif addrs[-1] != 'ux:d0':
                ops.append([t, 'sclose', addrs[-1],
                            rng.choice(['close', 'rst'])])
        elif long_run and rng.random() < 0.15:
            # a long history on one connection
            c = call(rng, st)
            if rng.random() < 0.6:
                st['sub'] += 1
                c = ['subscribe', [st['sub'], None], False]
            ops.append([t, 'do', name, 'call'] + c)
            ops.append([t, 'do', name, 'many',
                        rng.choice([70, 150, 300, 600, 1100]),
                        rng.choice(['ping', 'ping', 'ping', 'clients']),
                        rng.choice([0, 2, 10])])
            c = call(rng, st)
            if rng.random() < 0.5:
                st['gen'][3] = st['gen'].get(3, 0) + 1
                c = ['publish', [3, st['gen'][3], {'name': ['x']}, 5], False]
            ops.append([t, 'do', name, 'call'] + c)
        elif r > 0.97 and addrs[-1] != 'ux:d0':
            ops.append([t, 'squery', addrs[-1]])
        else:
            for _ in range(rng.choice([1, 1, 1, 2, 4])):
                c = call(rng, st)
                if rng.random() < 0.1:
                    c.append([call(rng, st) for _ in
                              range(rng.choice([1, 2]))])
                ops.append([t, 'do', name, 'call'] + c)
        t = round(t + rng.choice([0, 0, 0.001, 0.01, 0.1, 0.6, 2.0]) *
                  rng.random(), 6)
    ops.sort(key=lambda o: o[0])
    return {'property': 'P16', 'seed': "P16/%s" % seed, 'kind': 'clients',
            'mode': 'api', 'conf': conf, 'sched': sched, 'ops': ops,
            'end': {}, 'autostart': real}
