"""Scenarios for P21: one or two pafc sessions among other clients."""

import json
import shlex

from .gen import Gen, props, filter_text, bad_filter


def no_newlines(x):
    if isinstance(x, str):
        return x.replace('\n', ' ')
    if isinstance(x, list):
        return [no_newlines(y) for y in x]
    if isinstance(x, dict):
        return {k: no_newlines(y) for k, y in x.items()}
    return x


def quote(rng, s):
    """Some way of writing an argument."""
    r = rng.random()
    if r < 0.6:
        return shlex.quote(s)
    if r < 0.9:
        return '"%s"' % s.replace('\\', '\\\\').replace('"', '\\"') \
            if '$' not in s and '`' not in s else shlex.quote(s)
    return ''.join('\\' + c if not c.isalnum() and c.isascii() else c
                   for c in s) or "''"


def value(rng, v):
    if isinstance(v, int):
        return ('+%d' % v) if v > 0 and rng.random() < 0.05 else '%d' % v
    if rng.random() < 0.1:
        return '|%s|' % v
    try:
        int(v)
    except ValueError:
        if v.startswith('|') and v.endswith('|') or v == '' and \
           rng.random() < 0.5 or v.strip() != v and \
           rng.random() < 0.5:
            return '|%s|' % v
        return v
    return '|%s|' % v


class Session:
    """What the user of one shell remembers."""

    def __init__(self, name):
        self.name = name
        self.gen = {}
        self.tracking = False


def publish(rng, s):
    r = rng.random()
    w = ['publish']
    if r < 0.45:
        gen = rng.choice([0, 1, 1, 5])
    else:
        sid = rng.choice(['1', '2', '3', '0', '1', '0x2', '%SVC0%', '%SVC1%',
                          'DEADbeef', '7fffffffffffffff'])
        last = s.gen.get(sid, 0)
        gen = max(0, last + rng.choice([1, 1, 1, 0, -1, 7]))
        s.gen[sid] = max(gen, last)
        w.append(sid)
    w += ['%d' % gen, '%d' % rng.choice([0, 1, 2, 5, 60, 4000000000])]
    pp = no_newlines(props(rng))
    if rng.random() < 0.1:
        pp.setdefault(rng.choice(['name', 'k']), []).append(rng.choice(
            ['|a', 'a|', 'a|b', '|', '||', '|7|', ' 7', '7 ', '0x10', '1e3',
             '-', '+', '-0', "'", '"', 'a b', '\\', '#x', ';', '$a', '`']))
    for k, vs in pp.items():
        for v in vs:
            w += [quote(rng, k), quote(rng, value(rng, v))]
    return ' '.join(w)


BAD = ['publish', 'publish 1', 'publish 1 2 3 4 5', 'publish x 1 2',
       'publish 1 x 2', 'publish 1 1 x', 'publish 1 1 1.5', 'publish -1 1 1',
       'publish 1 -1 1', 'publish 1 1 -1', 'publish 1 -5', 'publish -5 1',
       'publish 10000000000000000 1 1', 'publish 1 9223372036854775808 1',
       'publish 1 1 9223372036854775808', 'publish 1 1 k', 'publish "1 1 1',
       'publish 1 1 1 "k v', "publish 1 1 1 k 'v", 'publish 1 1 1 k\\',
       'unpublish', 'unpublish x', 'unpublish -1', 'unpublish 1 2',
       'unpublish 8000000000000000', 'unpublish "1"', 'unsubscribe',
       'unsubscribe -2', 'unsubscribe 10000000000000000', 'unsubscribe z',
       'unsubscribe 1 1', 'services "', "services '(a=b)", 'services (a=b)\\',
       'subscribe "(a=b)', "subscribe '", 'subscribe a\\', 'track "', 'track x',
       'track query verbose', "track 'query", 'track Query', 'nonsense',
       'pingg', 'publis 1 1 1', 'PING', 'exit', 'services\\']


def line(rng, s, w):
    kind = rng.choices(list(w), list(w.values()))[0]
    if kind == 'publish':
        return publish(rng, s)
    if kind == 'unpublish':
        return 'unpublish ' + rng.choice(['1', '2', '3', '0', '0x1', '%SVC0%',
                                          '%SVC1%', '%SVC2%', 'ABC', '99'])
    if kind in ('subscribe', 'services'):
        if rng.random() < 0.4:
            return kind
        f = filter_text(rng) if rng.random() < 0.85 else bad_filter(rng)
        return '%s %s' % (kind, quote(rng, no_newlines(f)))
    if kind == 'unsubscribe':
        return 'unsubscribe ' + rng.choice(
            ['%SUB0%', '%SUB0%', '%SUB1%', '%SUB2%', '1f', '%SVC0%', '65'])
    if kind == 'track':
        if not s.tracking or rng.random() < 0.1:
            s.tracking = True
            return 'track'
        return 'track ' + rng.choice(['query', 'query', 'query', 'verbose',
                                      'quiet'])
    if kind == 'trackq':
        return 'track ' + rng.choice(['query', 'verbose', 'quiet'])
    if kind == 'bad':
        return rng.choice(BAD)
    if kind == 'blank':
        return rng.choice(['', '', ' ', '\t'])
    if kind == 'help':
        return rng.choice(['help', 'help ping', 'help publish', 'help quit'])
    pad = rng.choice(['%s', '%s', '%s', '  %s', '%s ', '%s\t'])
    return pad % kind


LINES = {'publish': 8, 'unpublish': 3, 'subscribe': 4, 'unsubscribe': 2.5,
         'services': 3, 'clients': 1.5, 'subscriptions': 1.5, 'ping': 2,
         'hello': .7, 'version': .5, 'id': .5, 'help': .3, 'track': 2,
         'trackq': .4, 'bad': 2, 'blank': .5}


def servers(rng, addr, attrs, vr):
    """A domain file naming the server, and where it stands in it."""
    n = rng.choice([1, 1, 2, 3])
    at = rng.randrange(n)
    tls = {'tlsCertificateFile': 'tls.cert_file', 'tlsKeyFile': 'tls.key_file',
           'tlsTrustedCaFile': 'tls.tc_file'}
    if rng.random() < 0.5:
        rows = ['ux:other%d' % k for k in range(n)]
        rows[at] = addr
        addrs = list(rows)
        text = []
        for r in rows:
            while rng.random() < 0.3:
                text.append(rng.choice(['', '# comment', '  # ux:wrong', ' ',
                                        '#ux:wrong']))
            text.append(rng.choice(['%s', '%s', ' %s', '%s  ', '\t%s']) % r)
        return '\n'.join(text) + rng.choice(['', '\n', '\n\n']), at, addrs
    objs = []
    for k in range(n):
        o = {'address': addr if k == at else 'ux:other%d' % k}
        for j, x in tls.items():
            if rng.random() < 0.3:
                o[j] = '/etc/%d/%s' % (k, x)
                if k == at:
                    attrs[x] = o[j]
        if rng.random() < 0.4:
            o['minProtocolVersion'] = 2 if k != at else rng.choice([2, 2, 3])
            if k == at:
                vr[0] = o['minProtocolVersion']
        if rng.random() < 0.4:
            o['maxProtocolVersion'] = 3 if k != at or vr[0] == 3 else \
                rng.choice([2, 3])
            if k == at:
                vr[1] = o['maxProtocolVersion']
        objs.append(o)
    text = json.dumps({'servers': objs}, indent=rng.choice([None, 2]))
    return rng.choice(['', '\n', ' \t\r\n']) + text + '\n', at, \
        [o['address'] for o in objs]


def start(rng, addr):
    """Command line, files and environment of one invocation."""
    conf = {'args': [], 'files': {}, 'target': [addr, {}, [2, 3]], 'cid': None}
    args, files = conf['args'], conf['files']
    if rng.random() < 0.25:
        conf['dir'] = '/tmp/doms'
        conf['env'] = {'PAF_DOMAINS': '/tmp/doms'}
    for k in range(rng.choice([0, 0, 1, 3])):
        files['d%d' % k] = 'ux:elsewhere%d\n' % k
    r = rng.random()
    attrs, vr = conf['target'][1], conf['target'][2]
    if r < 0.55:
        pos = [addr]
    else:
        text, at, addrs = servers(rng, addr, attrs, vr)
        name = rng.choice(['main', 'x.y', 'dom-1'])
        files[name] = text
        pos = [name]
        if at or rng.random() < 0.3:
            args += ['-n', '%d' % at]
        q = rng.random()
        if q < 0.05:
            args += ['-n', '%d' % (len(addrs) + rng.choice([0, 5]))]
            conf['target'] = None
        elif q < 0.12:
            # which addresses there are
            conf['lists'] = addrs
            conf['target'] = None
            args.append('-a')
    if rng.random() < 0.4:
        conf['cid'] = rng.choice([0, 1, 10, 0xabc, 0xdeadbeef, (1 << 63) - 1])
        args += ['-i', rng.choice(['%x', '%x', '%X', '0x%x']) % conf['cid']]
    if rng.random() < 0.3:
        v = rng.choice([2, 3])
        args += ['-p', '%d' % v]
        if conf['target']:
            conf['target'][2] = [v, v]
    r = rng.random()
    if r < 0.04:
        conf['args'] = ['-l']
        conf['lists'] = sorted(files)
        conf['target'] = None
        return conf
    if r < 0.1 and 'lists' not in conf:
        conf['target'] = None
        bad = rng.choice([['-p', '9'], ['-z'], ['-i', 'xyz'], ['-n', 'x'],
                          ['-p', '1']])
        k = rng.choice([0, len(args)])
        args[0:0] = bad if k == 0 else []
        if k:
            args += bad
        conf['args'] = args + pos
        return conf
    if r < 0.12 and 'lists' not in conf:
        conf['target'] = None
        conf['args'] = args + rng.choice([[], pos + ['extra']])
        return conf
    conf['args'] = args + pos
    return conf


def make(seed, tier='quick'):
    g = Gen('P21', seed)
    rng = g.rng
    real = rng.random() < 0.72
    g.basic(n_clients=rng.choice([1, 2, 2, 3]), users=1)
    g.clients = g.clients if real else []
    for c in g.clients:
        if rng.random() < 0.5:
            c.vmin = 2
            c.vmax = 3
    d = g.conf['domains'][0]
    if rng.random() < 0.15:
        d['vmax'] = 2
    elif rng.random() < 0.1:
        d['vmin'] = 3
    if rng.random() < 0.15:
        g.conf['limits'] = {'user': rng.choice([
            {'services': 2, 'subscriptions': 2}, {'services': 1},
            {'subscriptions': 1}, {'clients': 2}])}
    if real:
        g.net_faults(0.5)
    addr = d['sockets'][0]
    if not real:
        addr = 'ux:stub'
        g.emit('stub', addr, {
            'bad_p': rng.choice([0, 0, 0, 0.02, 0.1]),
            'silent_p': rng.choice([0, 0, 0, 0.03]),
            'fail_p': rng.choice([0, 0.05, 0.3]),
            'badver_p': rng.choice([0, 0, 0, 0.1])})
    sessions = []
    g.t = 0.01 if real else 0.0
    for k in range(rng.choice([1, 1, 1, 2])):
        name = 'sh%d' % k
        a = addr if rng.random() < 0.97 else 'ux:nobody'
        conf = start(rng, a)
        if real and conf['cid'] is None and rng.random() < 0.02:
            conf['cid'] = 10
            conf['args'] = ['-i', 'a'] + conf['args']
        conf['preempt'] = rng.choice([0, 0.05, 0.3, 0.3])
        link = conf['link'] = {'lat': rng.choice([[0.0002, 0.002], [0, 0],
                                                  [0.001, 0.05]])}
        if rng.random() < 0.3:
            link['cwin'] = rng.choice([1, 2, 5])
        if rng.random() < 0.3:
            link['swin'] = rng.choice([1, 2, 5, 50])
        if rng.random() < 0.3:
            link['ceagain_p'] = rng.choice([0.1, 0.5])
        if rng.random() < 0.2:
            link['eagain_p'] = 0.2
        s = conf['sched'] = {}
        if rng.random() < 0.5:
            s.update(late_p=0.5, late_max=rng.choice([0.0005, 0.01]))
        if rng.random() < 0.2:
            s['spurious_p'] = 0.2
        if rng.random() < 0.2:
            s.update(stall_p=0.05, stall_max=0.3)
        g.emit('shell', name, conf)
        sessions.append(Session(name))
    w = {k: v for k, v in LINES.items() if k in ('publish', 'subscribe') or
         rng.random() < 0.85}
    if rng.random() < 0.3:
        w['subscribe'] *= 3
    if rng.random() < 0.2:
        w['track'] = w.get('track', 1) * 4
    p_fault = rng.choice([0, 0, 0, 0.02, 0.06])

    def fault(name):
        f = rng.random()
        if f < 0.3:
            g.emit('nfault', name, rng.choice(['send', 'recv']),
                   rng.choice(['EAGAIN', 'EAGAIN', 'EPIPE', 'ECONNRESET',
                               'ETIMEDOUT', 'ENOBUFS']),
                   rng.choice([1, 1, 3]))
        elif f < 0.4:
            g.emit('nrst', name)
        elif f < 0.55:
            g.emit('npart', name, 1)
            t, g.t = g.t, g.t + rng.choice([0.01, 0.5, 4])
            g.emit('npart', name, 0)
            g.t = t
        elif f < 0.62:
            g.emit('ncrash', name, rng.choice([0, 0, 0.5]))
        elif f < 0.75 and real:
            g.emit('crash', rng.choice([0, 1, 3, 8]), rng.choice([0, 0, 0.5]))
            t, g.t = g.t, g.t + rng.choice([0.001, 0.3])
            g.emit('start')
            g.t = t
        elif f < 0.85 and real:
            g.emit('sleep', rng.choice([0.1, 1.0]))
        elif f < 0.92:
            g.emit('sleepshell', name, rng.choice([0.1, 1.0]))
        elif not real:
            g.emit('sclose', addr, rng.choice(['close', 'rst']))

    def user(s, n):
        for _ in range(n):
            lines = [line(rng, s, w) for _ in
                     range(rng.choice([1, 1, 1, 2, 4]))]
            r = rng.random()
            if r < 0.01:
                lines.append('quit')
            elif r < 0.015:
                lines.append('EOF')
            elif r < 0.02:
                lines.append(None)
            g.emit('line', s.name, *lines)
            if rng.random() < p_fault:
                fault(s.name)
            if not real and rng.random() < 0.1:
                g.emit('squery', addr)
            yield rng.choice([0, 0.001, 0.01, 0.1, 0.6, 2.0]) * rng.random()
    for s in sessions:
        g.add(user(s, rng.choice([3, 8, 15, 25])), 0.005)
    if g.clients:
        g.add(g.steps(rng.randint(2, 30), {
            'publish': 8, 'unpublish': 3, 'subscribe': 2, 'services': .5,
            'close': 1, 'reconnect': 1, 'rst': .5, 'track': .5}))
    g.weave()
    scn = g.scenario()
    scn['ops'] = [o if o[1] == 'shell' else no_newlines(o)
                  for o in scn['ops']]
    scn.update(kind='shell', autostart=real)
    return scn
