"""P19: server crashes and restarts under self-restoring clients.

The clients are processes that use the real paf.client and keep a desired
state.  Whatever happened before, once faults stop every client must have got
its publications and subscriptions through, and every subscriber must see
exactly what the live clients publish.
"""

import random
import signal

from . import spec
from .clients import NodeRun
from .gen import props, filt, perturb


class RestartRun(NodeRun):
    def op_signal(self, signo, n=0):
        # an orderly stop is followed by a restart as well
        NodeRun.op_signal(self, signo, n)

    def plan_end(self, t):
        sim = self.sim
        bound = self.scn['end'].get('bound', 12.0)
        sim.at(t, lambda: self.calm() and None)
        for k in range(10):     # (a stopping server may take a while)
            sim.at(t + 0.05 + 0.2 * k, lambda: self.revive() and None)
        sim.at(t + bound, lambda: self.stage2() and None)

    def revive(self):
        if self.server is None or not self.server.up():
            self.op_start()

    def live(self):
        return [self.nodes[n] for n in sorted(self.nodes)
                if not self.nodes[n].exited]

    def stage2(self):
        sim = self.sim
        if self.server is None or not self.server.up():
            sim.violate('no-server', ['P19', 'P01'],
                        "the restarted server does not run")
            return
        if not self.check():
            return
        self.audit('aud')
        sim.after(1.0, lambda: self.stage3() and None)

    def check(self):
        sim = self.sim
        want = {}
        for c in self.live():
            if c.conn is None or not c.ready:
                sim.violate('not-reconnected', ['P19'],
                            "%s has no connection %.1f s after the faults "
                            "ended" % (c.name, self.scn['end']['bound']))
                return False
            for sid, (gen, p, ttl) in c.want.items():
                want[sid] = (gen, spec.props_key(p), ttl, c.conf['cid'], None)
                if c.acked.get(sid) != gen:
                    sim.violate('not-republished', ['P19'],
                                "%s has not got generation %d of service %d "
                                "acknowledged" % (c.name, gen, sid))
                    return False
        for c in self.live():
            for sub_id, flt in c.subs.items():
                view = c.views.get(sub_id)
                ast = spec.parse_filter(flt) if flt is not None else None
                exp = {sid: s for sid, s in want.items()
                       if ast is None or spec.match(ast, s[1])}
                if view != exp:
                    sim.violate('not-converged', ['P19', 'P02'],
                                "subscription %d of %s: the view is %r, the "
                                "live clients publish %r" %
                                (sub_id, c.name, view, exp))
                    return False
        sim.probe('converged')
        if self.nsrv > 1:
            sim.probe('converged-after-restart')
        return True

    def stage3(self):
        sim = self.sim
        for c in self.live():
            c.post(['stop'])
        sim.after(1.0, lambda: self.stage4() and None)

    def stage4(self):
        sim = self.sim
        for c in self.live():
            sim.violate('call-hangs', ['P16'], "%s does not end" % c.name)
            return
        for name in sorted(self.actors):
            self.op_close(name, 'close')
        sim.after(0.5, lambda: self.stage5() and None)

    def stage5(self):
        sim = self.sim
        sim.probe('final-phase')
        NodeRun.op_signal(self, signal.SIGTERM)
        sim.after(1.0, lambda: self.stage6() and None)

    def stage6(self):
        if self.server.up():
            self.sim.violate('no-exit', ['P15'], "server still runs a second "
                             "after SIGTERM")
        self.sim.end()


def make(seed, tier='quick'):
    rng = random.Random("gen/P19/%s" % seed)
    ops = []
    sockets = ['ux:d0'] + (['tcp:0.0.0.0:4001'] if rng.random() < 0.4 else [])
    lo, hi = rng.choice([(4, 30), (1, 5), (2, 8), (4, 60)])
    dconf = {'sockets': sockets, 'idle_min': lo, 'idle_max': hi}
    if rng.random() < 0.15:
        dconf['vmax'] = 2
    elif rng.random() < 0.15:
        dconf['vmin'] = 3
    conf = {'domains': [dconf], 'limits': {}}
    sched = {}
    if rng.random() < 0.6:
        sched = {'late_p': rng.choice([0.1, 0.5]),
                 'late_max': rng.choice([0.0005, 0.005, 0.05])}
    if rng.random() < 0.3:
        sched['partial_p'] = 0.3
    if rng.random() < 0.2:
        sched.update(stall_p=0.03, stall_max=0.5)
    n = rng.choice([1, 2, 2, 3, 4, 6])
    ttls = rng.choice([[0, 1], [1, 2, 3], [3, 5]])
    names = []
    state = {}
    user = rng.choice([None, None, '10.0.0.1'])
    zero = rng.random() < 0.3
    for k in range(n):
        vr = [2, 3]
        if dconf.get('vmax') != 2 and rng.random() < 0.3:
            vr = [3, 3]
        elif dconf.get('vmin') != 3 and rng.random() < 0.4:
            vr = [2, 2]
        link = {'lat': rng.choice([[0.0002, 0.002], [0, 0.0005],
                                   [0.005, 0.05]])}
        if rng.random() < 0.2:
            link['swin'] = rng.choice([2, 5, 50])
        if rng.random() < 0.2:
            link['cwin'] = rng.choice([1, 3])
        if rng.random() < 0.15:
            link['eagain_p'] = link['ceagain_p'] = 0.2
        name = 'a%d' % k
        a = list(sockets)
        rng.shuffle(a)
        conf_n = {'cid': 10 + k if not zero or k else 0, 'addrs': a,
                  'vrange': vr, 'track': True, 'user': user,
                  'backoff': rng.choice([0.05, 0.2, 0.5]), 'link': link,
                  'gen0': rng.choice([0, 1, 7, 1 << 40]),
                  'sched': {k2: v for k2, v in sched.items()
                            if k2.startswith('late')}}
        ops.append([round(rng.choice([0, 0, 0.001, 0.3]) * rng.random(), 6),
                    'node', name, 'agent', conf_n])
        names.append(name)
        state[name] = {'sids': {}, 'up': True, 'subs': 0}
    ops.append([0.0 if rng.random() < 0.7 else round(rng.random(), 4),
                'start'])
    t = 0.001
    sid_n = [0 if zero else 1]

    def pub(name):
        st = state[name]
        if st['sids'] and rng.random() < 0.6:
            sid = rng.choice(sorted(st['sids']))
            p = perturb(rng, st['sids'][sid]) if rng.random() < 0.6 else \
                props(rng)
        else:
            sid = sid_n[0]
            sid_n[0] += 1
            p = props(rng)
        st['sids'][sid] = p
        ops.append([t, 'do', name, 'pub', sid, p, rng.choice(ttls)])

    def sub(name):
        st = state[name]
        st['subs'] += 1
        flt = None if rng.random() < 0.5 else spec.filter_str(filt(rng))
        base = int(name[1:]) * 1000
        ops.append([t, 'do', name, 'sub',
                    base + st['subs'] - (1 if zero else 0), flt])
    for name in names:
        for _ in range(rng.choice([0, 1, 1, 2, 4])):
            pub(name)
        for _ in range(rng.choice([0, 1, 1, 2])):
            sub(name)
    steps = rng.randint(3, 30)
    if tier == 'thorough' and rng.random() < 0.2:
        steps *= 3
    w = {'pub': 8, 'sub': 1.5, 'unpub': 2, 'crash': 3, 'midcrash': 3,
         'term': .7, 'bounce': 1, 'ncrash': .5, 'nrst': 1, 'npart': .7,
         'nfault': .7, 'sleep': .5}
    for k in list(w):
        r = rng.random()
        if r < 0.2 and k not in ('pub', 'crash'):
            w[k] = 0
        elif r < 0.35:
            w[k] *= 3
    kinds = sorted(w)
    for _ in range(steps):
        r = rng.random()
        t = round(t + (0 if r < 0.3 else rng.random() * 0.005 if r < 0.6 else
                       rng.random() * 0.3 if r < 0.85 else
                       rng.random() * 2.5), 6)
        name = rng.choice(names)
        st = state[name]
        kind = rng.choices(kinds, [w[k] for k in kinds])[0]
        if kind == 'pub':
            pub(name)
        elif kind == 'sub':
            sub(name)
        elif kind == 'unpub':
            if st['sids']:
                sid = rng.choice(sorted(st['sids']))
                del st['sids'][sid]
                ops.append([t, 'do', name, 'unpub', sid])
        elif kind in ('crash', 'midcrash'):
            n_calls = 0 if kind == 'crash' else rng.choice(
                [1, 2, 3, 4, 6, 9, 15, 30])
            vanish = rng.choice([0, 0, 0, 0.3, 2.0])
            ops.append([t, 'crash', n_calls, vanish if not n_calls else 0])
            d = rng.choice([0, 0.001, 0.05, 0.5, 3])
            ops.append([round(t + d * rng.random(), 6), 'start'])
            if rng.random() < 0.6:
                t = round(t + d, 6)
        elif kind == 'term':
            ops.append([t, 'signal', 15, 0])
            ops.append([round(t + 0.2 * rng.random(), 6), 'start'])
        elif kind == 'bounce':
            ops.append([t, 'do', name, 'bounce'])
        elif kind == 'ncrash':
            ops.append([t, 'ncrash', name, rng.choice([0, 0, 0.5])])
        elif kind == 'nrst':
            ops.append([t, 'nrst', name])
        elif kind == 'npart':
            ops.append([t, 'npart', name, 1])
            ops.append([round(t + rng.choice([0.05, 0.5, 2]), 6), 'npart',
                        name, 0])
        elif kind == 'nfault':
            ops.append([t, 'nfault', name,
                        rng.choice(['send', 'recv', 'ssend', 'srecv']),
                        rng.choice(['EAGAIN', 'EPIPE', 'ECONNRESET',
                                    'ETIMEDOUT']), 1])
        elif kind == 'sleep':
            ops.append([t, 'sleep', rng.choice([0.1, 1.0])])
    ops.sort(key=lambda o: o[0])
    return {'property': 'P19', 'seed': "P19/%s" % seed, 'kind': 'clients',
            'mode': 'restart', 'conf': conf, 'sched': sched, 'ops': ops,
            'mute': 0 if rng.random() < 0.3 else 1,
            'end': {'bound': 4.0 + 2 * max(ttls)}, 'autostart': False}
