"""Generates scenarios: seeded, swarm-style (each scenario enables its own
subset of features and faults), one profile per property."""

import json
import random

from . import spec

KEYS = ['name', 'area', 'v', 'k(1)', 'å', 'Name', '%k', 'a=b', ' v', '{}']
STRS = ['a', 'b', 'ab', 'aba', 'abc', '', 'x*y', '7', '-3', 'long name (1)',
        'back\\slash', 'é\u2603', 'line\nbreak', 'tail\n',
        '\ud800', 'x\udfff', '\U0001f600', 'nul\x00', '"quoted"', 'y' * 300,
        '50% now', '%s', '%(a)d', '{0}', '}{', 'A', ' a', 'a ', 'e\u0301',
        '\xe9', "it's", 'a\tb', '&|<>=', 'None', 'true', '1.0', '007']
INTS = [0, 1, 2, 7, -3, 42, 10 ** 12, 2 ** 53 + 1, 2 ** 63 - 1, 1 - 2 ** 63,
        2 ** 31]


def props(rng, rich=True):
    out = {}
    for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3])):
        k = rng.choice(KEYS[:2] if rng.random() < 0.7 else KEYS)
        vs = []
        for _ in range(rng.choice([1, 1, 1, 2, 3] if rich else [1])):
            v = rng.choice(STRS[:4]) if rng.random() < 0.5 else \
                rng.choice(INTS[:5]) if rng.random() < 0.6 else \
                rng.choice(STRS) if rng.random() < 0.6 else rng.choice(INTS)
            vs.append(v)
        if rng.random() < 0.05:
            vs.append(vs[0])
        if rng.random() < 0.04:
            vs = []
        out[k] = vs
    if rng.random() < 0.006:
        # a large one (the largest message is 65535 bytes)
        n = rng.choice([1000, 5000, 17000, 34000, 60000])
        out['large'] = rng.choice([
            lambda: ['x' * n], lambda: ['y' * 100] * (n // 104),
            lambda: [i % 7 for i in range(n // 3)],
            lambda: ['z%d' % i for i in range(n // 10)]])()
    return out


def perturb(rng, pp):
    """Nearly the same properties (or the same, written differently)."""
    pp = {k: list(vs) for k, vs in pp.items()}
    # (a large value is left as it is, to stay within a message)
    keys = sorted(k for k in pp if pp[k] and k != 'large')
    r = rng.random()
    if not keys or r < 0.1:
        pp[rng.choice(KEYS)] = [rng.choice(['', 0, '0', 'a'])]
        return pp
    k = rng.choice(keys)
    vs = pp[k]
    i = rng.randrange(len(vs))
    v = vs[i]
    if r < 0.35:
        # an integer and its string
        if isinstance(v, int):
            vs[i] = str(v)
        else:
            try:
                vs[i] = int(v)
            except ValueError:
                vs[i] = v + '0'
    elif r < 0.45:
        vs[i] = v + 1 if isinstance(v, int) else v.swapcase() + ' '
    elif r < 0.55:
        del vs[i]
        if not vs and rng.random() < 0.5:
            del pp[k]
    elif r < 0.65:
        del pp[k]
    elif r < 0.75:
        vs.append(rng.choice(['zz', 1000]))
    elif r < 0.85:
        k2 = rng.choice(KEYS)
        pp[k2] = pp.pop(k)
    elif r < 0.93:
        vs.append(v)                    # a set: no difference
    else:
        vs.reverse()                    # no difference
    return pp


def filt(rng, depth=0):
    r = rng.random()
    if depth < 3 and r < 0.3:
        return (rng.choice('&|'), tuple(filt(rng, depth + 1) for _ in
                                        range(rng.choice([2, 2, 3]))))
    if depth < 3 and r < 0.42:
        return ('!', filt(rng, depth + 1))
    k = rng.choice(KEYS[:2] if rng.random() < 0.75 else KEYS)
    r = rng.random()
    if r < 0.4:
        v = rng.choice([s for s in STRS if s]) if rng.random() < 0.5 else \
            rng.choice(STRS[:4]) if rng.random() < 0.5 else \
            str(rng.choice(INTS[:5]))
        return ('=', k, v)
    if r < 0.55:
        return ('present', k)
    if r < 0.75:
        n = rng.choice([2, 2, 3])
        parts = [rng.choice(['', 'a', 'b', 'ab', 'x*', 'line', 'break'])
                 for _ in range(n)]
        if rng.random() < 0.3:          # pieces of a value
            v = str(rng.choice(INTS)) if rng.random() < 0.6 else \
                rng.choice([s for s in STRS if len(s) > 1])
            at = sorted(rng.randint(0, len(v)) for _ in range(2 * n - 2))
            parts = [v[i:j] for i, j in zip([0] + at[1::2],
                                            at[::2] + [len(v)])]
        for i in range(1, n - 1):
            parts[i] = parts[i] or 'b'
        if n == 2 and parts == ['', '']:
            parts[0] = 'a'
        return ('sub', k, tuple(parts))
    return (rng.choice('<>'), k, rng.choice(INTS[:5]))


def bad_filter(rng):
    return rng.choice(['', '(', '(a=)', 'a=b', '(a=b', '(a=b))', '(&(a=b))',
                       '(|(a=b)x)', '(!a=b)', '(a>b)', '(a=x**y)', '()',
                       '(a<1.5)', '(=b)', '(a\\b=1)', '(a=b)(c=d)', '(a)',
                       '(&)', '(a>)', '(a=*', '(!(a=b)(c=d))'])


def filter_text(rng):
    return spec.filter_str(filt(rng))


def malformed(rng):
    """A message that violates the protocol, whatever the state."""
    def req(cmd, **kw):
        d = {'ta-cmd': cmd, 'ta-id': rng.randint(500000, 600000),
             'msg-type': 'request'}
        d.update({k.replace('_', '-'): v for k, v in kw.items()})
        return d

    def badval(kind):
        if kind == 'i':
            return rng.choice([-1, 1.5, '1', [1], {}, 1 << 63, 1 << 200, None,
                               1e300, [], ''])
        if kind == 's':
            return rng.choice([1, 0, 1.5, [], {}, ['x'], {'a': 'b'}, [1],
                               -7])
        if kind == 'p':
            return rng.choice([1, 'x', [], [1], {'a': 1}, {'a': 'b'},
                               {'a': {'b': 1}}, {'a': [1.5]}, {'a': [None]},
                               {'a': [['x']]}, {'a': [{}]}, None,
                               {'a': None}, {'a': [1], 'b': 'c'}])
    full = {
        'hello': dict(client_id=5, protocol_minimum_version=2,
                      protocol_maximum_version=3),
        'subscribe': dict(subscription_id=5, filter='(a=b)'),
        'unsubscribe': dict(subscription_id=5),
        'publish': dict(service_id=5, generation=1, service_props={'a': [1]},
                        ttl=1),
        'unpublish': dict(service_id=5), 'ping': {}, 'clients': {},
        'subscriptions': {}, 'services': dict(filter='(a=b)'),
        # 'track' is unknown to version 2 and valid in version 3
    }
    kinds = {'client_id': 'i', 'protocol_minimum_version': 'i',
             'protocol_maximum_version': 'i', 'subscription_id': 'i',
             'filter': 's', 'service_id': 'i', 'generation': 'i',
             'service_props': 'p', 'ttl': 'i'}
    r = rng.random()
    if r < 0.12:
        n = rng.choice([1, 2, 5, 30, 200])
        return bytes(rng.randrange(256) for _ in range(n)).decode('latin-1')
    if r < 0.27:
        return rng.choice([
            '[]', '1', '"x"', 'null', 'true', '{}', '[{}]', '1.5', '-1',
            '{', '}', '{"ta-cmd"', '{"ta-cmd": "ping"}', '""', '[1,2',
            '"hello"', '\x00', ' ', '\xff\xfe', '{"a":1}', '[[[[',
            '{"ta-cmd": "ping", "ta-id": 1e400, "msg-type": "request"}',
            '{"ta-cmd": "ping", "ta-id": NaN, "msg-type": "request"}',
            '{"ta-cmd": "ping", "ta-id": %s, "msg-type": "request"}' %
            ('9' * rng.choice([19, 30, 5000])),
            '[' * rng.choice([10, 1000, 30000]),
            '{"a":' * rng.choice([10, 1000, 8000]),
            '[' * 20000 + ']' * 20000,
            '{"ta-cmd": "ping", "ta-id": ' + '[' * 5000 + ']' * 5000 +
            ', "msg-type": "request"}',
            '\xed\xa0\x80', '"\\ud800"'])
    cmd = rng.choice(sorted(full))
    if r < 0.33:                       # something left over
        m = req(cmd, **full[cmd])
        return rng.choice(['', '', '', '\x00', '[']) + \
            json.dumps(m) + rng.choice(['\x00', '\x00{}', '}', 'x', ',',
                                        json.dumps(m), '\x0b', ' 1', '\xa0'])
    if r < 0.45:                       # wrong header
        m = req(cmd, **full[cmd])
        k = rng.choice(['ta-cmd', 'ta-id', 'msg-type'])
        how = rng.random()
        if how < 0.3:
            del m[k]
        elif k == 'ta-id':
            m[k] = badval('i')
        else:
            m[k] = rng.choice([1, None, [], {}, ['ping'], {'a': 1}, 'nope',
                               '', 'REQUEST', 'Ping', '__init__', 'request '])
        return json.dumps(m)
    if r < 0.60:                       # missing or unknown field
        m = req(cmd, **full[cmd])
        if rng.random() < 0.5 and any(f != 'filter' for f in full[cmd]):
            f = rng.choice([f for f in full[cmd] if f != 'filter'])
            del m[f.replace('_', '-')]
        else:
            m[rng.choice(['x', 'self', 'ta', 'args', '', 'ta_id',
                          'client-id2'])] = rng.choice([1, 'y', None, {}])
        return json.dumps(m)
    if r < 0.85:                       # wrong field type
        cands = [c for c in full if full[c]]
        cmd = rng.choice(sorted(cands))
        m = req(cmd, **full[cmd])
        f = rng.choice(sorted(full[cmd]))
        v = badval(kinds[f])
        m[f.replace('_', '-')] = v
        return json.dumps(m)
    # message types a client may not use
    cmd = rng.choice(sorted(full))
    m = {'ta-cmd': cmd, 'ta-id': rng.randint(0, 40),
         'msg-type': rng.choice(['accept', 'notify', 'complete', 'fail',
                                 'inform'])}
    if rng.random() < 0.3:
        m['track-type'] = 'query'
    return json.dumps(m)


class Client:
    def __init__(self, g, name, cid, user, dom, **kw):
        self.g = g
        self.name = name
        self.cid = cid
        self.user = user
        self.dom = dom
        self.vmin = kw.get('vmin', 2)
        self.vmax = kw.get('vmax', 3)
        self.conn = None
        self.n = 0
        self.ta = 0
        self.track_ta = None
        self.subs = {}
        self.opts = kw.get('opts', {})
        self.hello_done = False
        self.stalled = False

    def connect(self, hello=True, **over):
        g = self.g
        self.n += 1
        self.conn = "%s.%d" % (self.name, self.n)
        self.ta = 0
        self.track_ta = None
        self.subs = {}
        opts = dict(self.opts)
        opts.update(over)
        addr = opts.pop('addr', None) or g.rng.choice(
            g.conf['domains'][self.dom]['sockets'])
        remote, ski = g.remote(self.user, self.conn)
        opts['remote'] = remote
        if ski:
            opts['ski'] = ski
        g.emit('connect', self.conn, addr, opts)
        self.hello_done = False
        if hello:
            self.hello()
        return self.conn

    def next_ta(self):
        self.ta += 1
        return self.ta - 1

    def send(self, cmd, ta=None, mtype='request', **fields):
        if self.conn is None:
            self.connect(hello=(cmd != 'hello'))
        if ta is None:
            ta = self.next_ta()
        m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': mtype}
        for k, v in fields.items():
            m[k.replace('_', '-')] = v
        self.g.emit('send', self.conn, m)
        return ta

    def hello(self, cid=None, vmin=None, vmax=None):
        ta = None
        if not self.hello_done and self.ta == 0 and self.g.rng.random() < 0.15:
            ta = 3900           # leaves the id zero to another transaction
        self.hello_done = True
        return self.send('hello', ta=ta, client_id=self.cid if cid is None else cid,
                         protocol_minimum_version=self.vmin if vmin is None
                         else vmin,
                         protocol_maximum_version=self.vmax if vmax is None
                         else vmax)

    def close(self, mode='close'):
        if self.conn is not None:
            self.g.emit('close', self.conn, mode)
            self.conn = None
            self.stalled = False

    def track(self):
        self.track_ta = self.send('track')

    def publish(self, sid, gen=None, p=None, ttl=None, how=None):
        g = self.g
        key = (self.dom, sid)
        last = g.pub.get(key)
        how = how or g.rng.choice(['next', 'next', 'next', 'same', 'same',
                                   'samediff', 'old', 'far'])
        if last is None or how == 'next':
            gn = (last[0] if last else g.rng.choice([0, 1, 1, 5])) + 1
            r = g.rng.random()
            pp = props(g.rng) if last is None or r < 0.6 else \
                perturb(g.rng, last[1]) if r < 0.85 else last[1]
            tt = g.ttl() if last is None or g.rng.random() < 0.4 else last[2]
        elif how == 'far':
            gn, pp, tt = last[0] + g.rng.choice([2, 10, 1 << 40]), \
                props(g.rng), g.ttl()
            gn = min(gn, (1 << 62))
        elif how == 'same':
            gn, pp, tt = last
        elif how == 'samediff':
            gn, pp, tt = last
            r = g.rng.random()
            if r < 0.25:
                pp = props(g.rng)
            elif r < 0.75:
                pp = perturb(g.rng, pp)
            else:
                tt = g.ttl()
        else:
            gn, pp, tt = max(0, last[0] - 1), last[1], last[2]
        gn = gn if gen is None else gen
        pp = pp if p is None else p
        tt = tt if ttl is None else ttl
        if last is None or gn > last[0]:
            g.pub[key] = (gn, pp, tt)
        return self.send('publish', service_id=sid, generation=gn,
                         service_props=pp, ttl=tt)

    def subscribe(self, sub_id=None, flt=None):
        g = self.g
        if sub_id is None:
            sub_id = g.new_sub()
        kw = {}
        if flt is None:
            if g.rng.random() < 0.65:
                kw['filter'] = filter_text(g.rng)
            if g.rng.random() < 0.03:
                kw['filter'] = bad_filter(g.rng)
        elif flt != '':
            kw['filter'] = flt
        ta = self.send('subscribe', subscription_id=sub_id, **kw)
        self.subs[sub_id] = ta
        return sub_id


class Gen:
    """State shared by the activities that make up one scenario."""

    def __init__(self, prop, seed):
        self.rng = random.Random("gen/%s/%s" % (prop, seed))
        self.prop = prop
        self.seed = seed
        self.ops = []
        self.t = 0.0
        self.conf = {'domains': [], 'limits': {}}
        self.sched = {}
        self.end = {}
        self.clients = []
        self.pub = {}
        self.sub_sn = 100
        self.sids = [1, 2, 3]
        self.ttls = [1, 2, 3, 5]
        self.users = [('ux', None)]
        self.threads = []
        self.extra = {}
        # peers may use a port that another one used before
        self.ports = random.Random("ports/%s/%s" % (prop, seed)).choice(
            [None, None, 1, 3])

    # -- emission -------------------------------------------------------------
    def emit(self, kind, *args):
        self.ops.append([round(self.t, 6), kind] + list(args))

    def ttl(self):
        return self.rng.choice(self.ttls)

    def sid(self):
        return self.rng.choice(self.sids)

    def new_sub(self):
        if self.rng.random() < 0.08:
            return self.rng.choice([100, 101, 102])
        self.sub_sn += 1
        return self.sub_sn

    def remote(self, user, conn):
        u = self.users[user]
        port = 20000 + (len(self.ops) if self.ports is None else
                        len(self.ops) % self.ports)
        if u[0] == 'ux':
            # (the usual one is no name at all)
            how = random.Random('ux/%s/%s' % (self.seed, conn)).random()
            return 'ux:' + (conn if how < 0.6 else '' if how < 0.8 else
                            '/run/a b:%s' % conn if how < 0.9 else
                            '%s{0}\xe5' + conn), None
        if u[0] == 'tcp':
            return 'tcp:%s:%d' % (u[1], port), None
        return 'tls:%s:%d' % (u[1], port), u[2]

    # -- threads ----------------------------------------------------------------
    def add(self, gen, start=0.0):
        self.threads.append([self.t + start, len(self.threads), gen])

    def weave(self):
        """Run the activities interleaved in time order."""
        import heapq
        r = random.Random("long/%s/%s" % (self.prop, self.seed))
        if r.random() < self.long_p and self.clients:
            c = r.choice(self.clients)
            n = r.choice([150, 300, 300, 600, 1200])
            for _ in range(r.choice([1, 1, 2])):
                self.add(self.long_history(
                    c, r.choice(self.LONG), n, r.choice([1, 10, 10, 60])),
                    r.random())
        h = [(t, n, g) for t, n, g in self.threads]
        heapq.heapify(h)
        n = len(h)
        while h:
            t, i, g = heapq.heappop(h)
            self.t = t
            try:
                d = next(g)
            except StopIteration:
                continue
            heapq.heappush(h, (t + d, i, g))
        self.threads = []

    long_p = 0.015
    LONG = ('ping', 'republish', 'publish', 'subscribe', 'connect', 'list',
            'fail', 'many-services', 'many-subs', 'query', 'clients')

    def long_history(self, c, what, n, batch):
        """The same thing some hundreds of times on end."""
        if what in ('connect', 'list', 'many-services', 'many-subs',
                    'clients'):
            n = min(n, 300)
        filters = self.rng.random() < 0.5
        sub = self.rng.random() < 0.5
        sid = 900
        for i in range(n):
            if what == 'connect':
                if c.conn is not None:
                    c.close('close')
                    yield 0.01
            if c.conn is None:
                self.ready(c)
                if sub:
                    c.subscribe(flt='')
            if what == 'ping':
                c.send('ping')
            elif what == 'republish':
                c.publish(sid, how='next', ttl=5)
            elif what == 'publish':
                c.publish(sid, how='next', ttl=5)
                c.send('unpublish', service_id=sid)
                self.pub.pop((c.dom, sid), None)
            elif what == 'subscribe':
                s = c.subscribe(flt='(a=b)' if filters else '')
                c.send('unsubscribe', subscription_id=s)
                c.subs.pop(s, None)
            elif what == 'list':
                c.send('services')
            elif what == 'clients':
                c.send(self.rng.choice(['clients', 'subscriptions']))
            elif what == 'fail':
                c.send('unpublish', service_id=987654)
                c.send('subscribe', subscription_id=4711, filter='(a=')
            elif what == 'many-services':
                c.publish(sid + i, p={'i': [i]}, ttl=5)
            elif what == 'many-subs':
                c.subscribe(flt='' if i == 0 or not filters else
                            '(i=%d)' % i)
            elif what == 'query' and c.track_ta is not None:
                c.send('track', ta=c.track_ta, mtype='inform',
                       track_type='query')
            if i % batch == batch - 1:
                yield 0.002 * batch if batch > 1 else 0.005
        if what in ('many-services', 'many-subs'):
            c.send('services' if what == 'many-services' else 'subscriptions')
            c.publish(sid, how='next', ttl=5)
            yield 0.1
            if what == 'many-services' and c.conn is not None and filters:
                for i in range(n):
                    c.send('unpublish', service_id=sid + i)
                    self.pub.pop((c.dom, sid + i), None)
                    if i % batch == batch - 1:
                        yield 0.002 * batch
        yield 0.05
        c.publish(sid, how='next', ttl=5)
        c.send('services')
        c.send('ping')
        yield 0.05

    ODD = [0, 0, (1 << 63) - 1, 1 << 62, 1 << 31, 1 << 32, (1 << 53) + 1, 256]

    odd_done = False

    def odd_ids(self):
        """Some runs use zero, very large and repeated identifiers."""
        rng = self.rng
        if not self.odd_done and rng.random() < 0.3:
            self.reuse_ids(rng.choice([0.2, 0.6, 0.9]))
        if self.odd_done or rng.random() >= 0.3:
            self.odd_done = True
            return
        self.odd_done = True
        maps = {'client-id': {}, 'service-id': {}, 'subscription-id': {}}
        for f in maps:
            if rng.random() < 0.6:
                seen = sorted({o[3][f] for o in self.ops if o[1] == 'send' and
                               type(o[3].get(f)) is int})
                rng.shuffle(seen)
                pool = sorted(set(self.ODD))
                rng.shuffle(pool)
                if rng.random() < 0.6:
                    pool = [0] + [x for x in pool if x]
                for old, new in zip(seen[:rng.randint(1, 5)], pool):
                    maps[f][old] = new
                    # a permutation: ids stay distinct
                    if new in seen and new not in maps[f]:
                        maps[f][new] = old
        tas = {}
        for o in self.ops:
            if o[1] != 'send':
                continue
            m = o[3]
            for f, mp in maps.items():
                v = m.get(f)
                if type(v) is int and v in mp:
                    m[f] = mp[v]
            r = tas.get(o[2])
            if r is None:
                r = tas[o[2]] = rng.choice([0] * 12 + [1 << 31,
                                                       (1 << 63) - 5000])
            if type(m.get('ta-id')) is int and m['ta-id'] < 4000:
                m['ta-id'] += r

    ONE_SHOT = ('ping', 'publish', 'unpublish', 'services', 'clients',
                'subscriptions', 'unsubscribe')

    def reuse_ids(self, p):
        """Have requests use the ids of earlier, finished transactions."""
        rng = self.rng
        conns = {}
        for o in sorted(self.ops, key=lambda o: o[0]):
            if o[1] != 'send':
                continue
            m = o[3]
            ta, cmd = m.get('ta-id'), m.get('ta-cmd')
            if type(ta) is not int or not isinstance(cmd, str):
                continue
            free, names = conns.setdefault(o[2], ([], {}))
            if m.get('msg-type') != 'request':
                m['ta-id'] = names.get(ta, ta)
                continue
            if cmd != 'subscribe' and cmd not in self.ONE_SHOT:
                continue
            old = [x for x in free if o[0] - x[0] > 0.1]
            if old and rng.random() < p:
                x = rng.choice(old)
                free.remove(x)
                names[ta] = m['ta-id'] = x[1]
            if cmd in self.ONE_SHOT:
                free.append((o[0], m['ta-id']))

    def scenario(self):
        self.odd_ids()
        ops = sorted(self.ops, key=lambda o: o[0])   # stable
        scn = {'property': self.prop, 'seed': "%s/%s" % (self.prop, self.seed),
               'conf': self.conf, 'sched': self.sched, 'ops': ops,
               'end': self.end}
        scn.update(self.extra)
        return scn

    # -- building blocks --------------------------------------------------------
    def gap(self):
        """Time between two steps of an activity."""
        r = self.rng.random()
        k = self.pace
        if r < 0.45:
            return 0.0
        if r < 0.75:
            return self.rng.random() * 0.004
        if r < 0.92:
            return self.rng.random() * 0.3 * k
        if r < 0.985:
            return self.rng.random() * 2.0 * k
        return self.rng.random() * 8.0 * k

    pace = 1.0

    def tls_sockets(self, d):
        rng = random.Random('tls/%s/%s/%s' % (self.prop, self.seed,
                                              d['sockets'][0]))
        if rng.random() < 0.5:
            return
        d['tls'] = {}
        for i in range(rng.choice([0, 0, 1]), len(d['sockets'])):
            if rng.random() < 0.3:
                continue
            addr = d['sockets'][i] = '%s:%s' % (
                rng.choice(['tls', 'utls']), '0.0.0.0:%d' % (
                    4005 + 10 * int(d['sockets'][0][4:]) + i)
                if i == 0 else d['sockets'][i][4:])
            if rng.random() < 0.7:
                d['tls'][addr] = {
                    k: '/cred/%s/%s.pem' % (k, rng.choice('abc'))
                    for k in rng.sample(['cert', 'key', 'tc', 'crl'], 4)
                    if rng.random() < 0.6}

    def basic(self, n_clients=None, n_dom=1, users=1, vmix=True, track_p=0.4,
              idle=None, sockets=1):
        rng = self.rng
        doms = []
        for i in range(n_dom):
            d = {'sockets': ['ux:d%d' % i if s == 0 else 'tcp:0.0.0.0:%d' %
                             (4000 + 10 * i + s)
                             for s in range(sockets)]}
            self.tls_sockets(d)
            if rng.random() < 0.5:
                d['name'] = rng.choice(['dom%d', 'dom%d', '%s %d', '\xe5{%d}',
                                        '']).replace('%d', str(i))
            lo, hi = idle or rng.choice([(4, 30), (1, 5), (2, 8), (1, 2),
                                         (4, 60), (3, 3)])
            d['idle_min'], d['idle_max'] = lo, hi
            doms.append(d)
        self.conf['domains'] = doms
        pool = [('ux', None), ('tcp', '10.0.0.1'), ('tcp', '10.0.0.2'),
                ('tls', '10.0.0.1', 'aabb01'), ('tls', '10.0.0.3', 'ccdd02'),
                ('tls', '[fe80::1]', None), ('tcp', '[fe80::1]')]
        rng.shuffle(pool)
        if rng.random() < 0.3:
            # ... which are easily confused
            pool = rng.choice([
                [('tcp', '[fe80::1]'), ('tcp', '[fe80::2]'),
                 ('tcp', '[fe80::1:1]')],
                [('tcp', '10.0.0.1'), ('tcp', '10.0.0.11'),
                 ('tcp', '10.0.0.10')],
                [('tls', '10.0.0.1', 'aabb01'), ('tls', '10.0.0.1', 'aabb02'),
                 ('tls', '10.0.0.1', None)],
                [('tls', '[fd00::a:1]', None), ('tls', '[fd00::b:1]', None),
                 ('tls', '[fd00::a:1]', '0a')],
                [('tls', '10.0.0.1', '00aa' * 10),
                 ('tls', '10.0.0.1', '00ab' * 10), ('tls', '10.0.0.1', '00')],
                [('tls', '10.0.0.1', '0123' + '45' * 18),
                 ('tls', '10.0.0.1', '1203' + '45' * 18),
                 ('tls', '10.0.0.2', '1203' + '45' * 17 + '46')],
                [('tls', '10.0.0.1', 'c1' * 20),
                 ('tls', '10.0.0.1', 'c1' * 19 + 'c2'),
                 ('tls', '10.0.0.1', 'c2' + 'c1' * 19)]]) + pool
            top = pool[:3]
            rng.shuffle(top)
            pool = top + [u for u in pool[3:] if u not in top]
        self.users = pool[:users]
        n = n_clients or rng.choice([1, 2, 2, 3, 3, 4, 5])
        for i in range(n):
            v = rng.random()
            kw = {}
            if vmix and v < 0.35:
                kw = {'vmax': 2}
            elif vmix and v < 0.5:
                kw = {'vmin': 3}
            opts = {}
            if rng.random() < 0.9:
                opts['reply'] = rng.choice([0.0, 0.001, 0.05, 0.3])
            c = Client(self, 'c%d' % i, 10 + i, rng.randrange(users),
                       rng.randrange(n_dom), opts=opts, **kw)
            c.track_p = track_p
            self.clients.append(c)
        return self

    def net_faults(self, level=1.0):
        """Swarm: each kind of transport disturbance on or off per run."""
        rng = self.rng
        s = self.sched
        if rng.random() < 0.6:
            s['late_p'] = rng.choice([0.1, 0.5, 0.9])
            s['late_max'] = rng.choice([0.0005, 0.005, 0.05])
        if rng.random() < 0.25 * level:
            s['stall_p'] = rng.choice([0.01, 0.05])
            s['stall_max'] = rng.choice([0.05, 0.5, 1.5])
        if rng.random() < 0.5 * level:
            s['partial_p'] = rng.choice([0.1, 0.5])
        if rng.random() < 0.3 * level:
            s['spurious_p'] = rng.choice([0.05, 0.3])
        if rng.random() < 0.2 * level:
            s['early_p'] = rng.choice([0.05, 0.3])
        for c in self.clients:
            if rng.random() < 0.3 * level:
                c.opts['swin'] = rng.choice([1, 2, 4, 10])
            if rng.random() < 0.3 * level:
                c.opts['eagain_p'] = rng.choice([0.05, 0.3])
            r = rng.random()
            if r < 0.3:
                c.opts['lat'] = rng.choice([[0, 0], [0.0001, 0.0001],
                                            [0.01, 0.1], [0, 0.02]])

    def steps(self, n, weights, clients=None):
        """Random walk: n requests by random clients."""
        rng = self.rng
        clients = clients or self.clients
        names = [k for k in weights if weights[k] > 0]
        w = [weights[k] for k in names]
        for _ in range(n):
            c = rng.choice(clients)
            act = rng.choices(names, w)[0]
            getattr(self, 'a_' + act)(c)
            yield self.gap()

    def ready(self, c):
        if c.conn is None:
            c.connect()
            if self.rng.random() < c.track_p and c.vmax >= 3:
                c.track()

    # -- single actions -----------------------------------------------------
    def a_connect(self, c):
        if c.conn is not None and self.rng.random() < 0.7:
            c.close(self.rng.choice(['close', 'close', 'rst']))
        c.conn = None
        self.ready(c)

    def a_reconnect(self, c):
        """Return under the same id while the old connection may be up."""
        old = c.conn
        c.conn = None
        self.ready(c)
        if old and self.rng.random() < 0.6:
            self.emit('close', old, self.rng.choice(['close', 'rst',
                                                     'vanish']))

    def a_close(self, c):
        if c.conn is not None:
            c.close(self.rng.choice(['close', 'close', 'close', 'rst']))

    def a_vanish(self, c):
        if c.conn is not None:
            c.close('vanish')

    def a_rst(self, c):
        if c.conn is not None:
            self.emit('rst', c.conn)
            c.conn = None

    def a_publish(self, c):
        self.ready(c)
        c.publish(self.sid())

    def a_unpublish(self, c):
        self.ready(c)
        sid = self.sid()
        c.send('unpublish', service_id=sid)
        if self.rng.random() < 0.5:
            self.pub.pop((c.dom, sid), None)

    def a_subscribe(self, c):
        self.ready(c)
        c.subscribe()

    def a_unsubscribe(self, c):
        self.ready(c)
        rng = self.rng
        if c.subs and rng.random() < 0.8:
            sub = rng.choice(sorted(c.subs))
            if rng.random() < 0.9:
                c.subs.pop(sub)
        else:
            others = [s for o in self.clients for s in o.subs]
            sub = rng.choice(sorted(others)) if others and \
                rng.random() < 0.7 else rng.choice([100, 999999])
        c.send('unsubscribe', subscription_id=sub)

    def a_services(self, c):
        self.ready(c)
        kw = {}
        if self.rng.random() < 0.5:
            kw['filter'] = filter_text(self.rng) if self.rng.random() < 0.9 \
                else bad_filter(self.rng)
        c.send('services', **kw)

    def a_subscriptions(self, c):
        self.ready(c)
        c.send('subscriptions')

    def a_clients(self, c):
        self.ready(c)
        c.send('clients')

    def a_ping(self, c):
        self.ready(c)
        for _ in range(self.rng.choice([1, 1, 2, 5])):
            c.send('ping')

    def a_track(self, c):
        self.ready(c)
        if c.vmax >= 3:
            c.track()

    def a_inform(self, c):
        """A track inform: query (answered), or unsolicited things."""
        self.ready(c)
        if c.track_ta is not None:
            c.send('track', ta=c.track_ta, mtype='inform',
                   track_type='query')

    def a_hello(self, c):
        rng = self.rng
        if c.conn is None:
            c.connect(hello=False)
        r = rng.random()
        if r < 0.3:
            c.hello(vmin=rng.choice([0, 1, 2, 3, 4]),
                    vmax=rng.choice([0, 1, 2, 3, 4, 9]))
        elif r < 0.55:
            c.hello(cid=rng.choice([10, 11, 12, 99]))
        else:
            c.hello()

    def a_bare(self, c):
        """A connection that does not (immediately) say hello."""
        rng = self.rng
        if c.conn is not None:
            c.close()
        c.connect(hello=False)
        r = rng.random()
        if r < 0.5:
            for _ in range(rng.choice([1, 1, 2, 4])):
                cmd = rng.choice(['ping', 'services', 'clients', 'publish',
                                  'subscribe', 'unpublish', 'unsubscribe',
                                  'subscriptions', 'track'])
                kw = {'publish': dict(service_id=self.sid(), generation=1,
                                      service_props=props(rng), ttl=1),
                      'subscribe': dict(subscription_id=self.new_sub()),
                      'unpublish': dict(service_id=self.sid()),
                      'unsubscribe': dict(subscription_id=100)}.get(cmd, {})
                c.send(cmd, **kw)
        if rng.random() < 0.3:
            c.hello()
        c.bare = True

    def a_garbage(self, c):
        rng = self.rng
        self.ready(c)
        r = rng.random()
        if r < 0.55:
            self.emit('raw', c.conn, malformed(rng))
        elif r < 0.65 and c.subs:
            # inform in a transaction that is no track transaction
            c.send(rng.choice(['track', 'subscribe']),
                   ta=rng.choice(sorted(c.subs.values())), mtype='inform',
                   **rng.choice([{'track_type': 'query'},
                                 {'track_type': 'reply'}, {}]))
        elif r < 0.72 and c.track_ta is not None:
            c.send('track', ta=c.track_ta, mtype='inform',
                   track_type=rng.choice(['reply', 'nope', '', 'Query']))
        elif r < 0.8:
            c.send('track', ta=rng.choice([0, 77, c.ta]), mtype='inform',
                   track_type=rng.choice(['query', 'reply']))
        elif r < 0.88 and (c.subs or c.track_ta is not None):
            tas = sorted(c.subs.values()) + ([c.track_ta] if c.track_ta
                                             is not None else [])
            # a second request in an open transaction
            c.send(rng.choice(['ping', 'services', 'subscribe', 'track',
                               'unpublish']), ta=rng.choice(tas),
                   **{})
        elif r < 0.94:
            # burst of garbage and valid requests, then the end
            c.send('ping')
            self.emit('raw', c.conn, malformed(rng))
            c.send('ping')
            c.publish(self.sid())
        else:
            self.emit('raw', c.conn, malformed(rng))
            if rng.random() < 0.5:
                c.close('rst')
        if rng.random() < 0.8:
            c.conn = None

    def a_stall(self, c):
        if c.conn is not None:
            c.stalled = not c.stalled
            self.emit('stall', c.conn, 1 if c.stalled else 0)

    def a_part(self, c):
        if c.conn is not None:
            self.emit('part', c.conn, 1)
            conn = c.conn
            d = self.rng.choice([0.05, 0.5, 2, 6])
            self.t += d
            self.emit('part', conn, 0)
            self.t -= d

    def a_senderr(self, c):
        if c.conn is not None:
            self.emit('fault', c.conn, 'send',
                      self.rng.choice(['EPIPE', 'ECONNRESET', 'ETIMEDOUT',
                                       'EAGAIN', 'ENOBUFS']), 1)
            if self.rng.random() < 0.5:
                c.conn = None

    def a_recverr(self, c):
        if c.conn is not None:
            self.emit('fault', c.conn, 'recv',
                      self.rng.choice(['ECONNRESET', 'ETIMEDOUT', 'EAGAIN',
                                       'EPROTO']), 1)
            if self.rng.random() < 0.5:
                c.conn = None

    def a_accepterr(self, c):
        for _ in range(self.rng.choice([1, 1, 2])):
            self.emit('faultacc', self.rng.choice(
                self.conf['domains'][c.dom]['sockets']),
                self.rng.choice(['ECONNABORTED', 'EMFILE', 'ENFILE', 'ENOMEM',
                                 'EAGAIN', 'EPROTO', 'ECONNRESET']), 1)

    def a_sleep(self, c):
        self.emit('sleep', self.rng.choice([0.01, 0.2, 1.0, 2.5, 6.0]))

    def a_jump(self, c):
        rng = self.rng
        d = rng.choice([0.5, 1, 3, 10, 100, 3600, 86400, 1e7])
        self.emit('jump', round((1 if rng.random() < 0.5 else -1) * d *
                                (0.5 + rng.random()), 3))

    def a_wait(self, c):
        self.t += 0


W_DIR = {'publish': 10, 'unpublish': 4, 'subscribe': 3, 'unsubscribe': 2,
         'services': 2, 'close': 2, 'reconnect': 1.5, 'connect': 1, 'ping': 1,
         'clients': .5, 'subscriptions': .5, 'rst': .5, 'vanish': .3}
