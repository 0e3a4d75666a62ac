"""Workload profiles: what the scenarios of each property consist of.

Every profile returns a scenario.  Activities ("motifs") are coroutines that
are woven together in time; each run picks its own subset (swarm testing)."""

from .gen import Gen, Client, W_DIR, props, filter_text, malformed
from .scenario import conf_style


# ---------------------------------------------------------------------------
# motifs
# ---------------------------------------------------------------------------

def m_orphan(g, c, others, sid, n):
    """Publish, lose the connection, come back before, at or after expiry."""
    rng = g.rng
    for _ in range(n):
        if c.conn is None:
            g.ready(c)
        ttl = g.ttl()
        c.publish(sid, how='next', ttl=ttl)
        yield g.gap()
        if rng.random() < 0.3:
            c.publish(sid, how='same')
            yield g.gap()
        c.close(rng.choice(['close', 'close', 'rst']))
        r = rng.random()
        if r < 0.30:
            yield ttl * rng.random() * 0.9 + 0.01
        elif r < 0.6:
            yield max(0.0, ttl + rng.choice([-0.003, -0.001, 0, 0.001, 0.002,
                                             -0.02, 0.02]) - 0.001)
        elif r < 0.75:
            yield ttl + 0.2
        else:
            yield rng.random() * 0.02
        who = c if rng.random() < 0.6 or not others else rng.choice(others)
        g.ready(who)
        r = rng.random()
        if r < 0.45:
            who.publish(sid, how='same')
        elif r < 0.8:
            who.publish(sid, how='next')
        elif r < 0.9:
            who.send('unpublish', service_id=sid)
        else:
            who.publish(sid, how=rng.choice(['old', 'samediff']))
        yield g.gap()
        if rng.random() < 0.6:
            who.close(rng.choice(['close', 'rst']))
            yield rng.choice([g.gap(), ttl + 0.1, ttl * 0.5])


def m_takeover(g, a, b, sid, n):
    rng = g.rng
    for _ in range(n):
        for x in (a, b):
            g.ready(x)
        x, y = (a, b) if rng.random() < 0.5 else (b, a)
        x.publish(sid, how='next')
        yield g.gap()
        y.publish(sid, how=rng.choice(['same', 'next', 'next']))
        yield g.gap()
        r = rng.random()
        if r < 0.35:
            x.close(rng.choice(['close', 'rst']))
            yield g.gap()
        elif r < 0.6:
            y.close(rng.choice(['close', 'rst']))
            yield rng.choice([0.01, g.ttl() + 0.1])
        elif r < 0.75:
            x.close()
            yield g.gap()
            y.close()
            yield rng.choice([0.05, 0.7, g.ttl()])
        elif r < 0.85:
            x.publish(sid, how='same')
            yield g.gap()
        else:
            (x if rng.random() < 0.5 else y).send('unpublish', service_id=sid)
            yield g.gap()


def m_filter_flip(g, c, sub, sid, n):
    """A service moving in and out of a subscription's filter."""
    rng = g.rng
    k, v = 'name', rng.choice(['a', 'b', 'ab'])
    flt = rng.choice(['(%s=%s)', '(!(%s=%s))', '(&(%s=%s)(area=*))',
                      '(|(%s=%s)(v>3))', '(%s=%s*)']) % (k, v)
    g.ready(sub)
    sub.subscribe(flt=flt)
    yield g.gap()
    for _ in range(n):
        g.ready(c)
        p = {k: [v if rng.random() < 0.5 else 'zz']}
        if rng.random() < 0.5:
            p['area'] = [rng.choice([1, 'x'])]
        if rng.random() < 0.3:
            p['v'] = [rng.choice([1, 5])]
        c.publish(sid, how='next', p=p)
        yield g.gap()
        r = rng.random()
        if r < 0.15:
            c.send('unpublish', service_id=sid)
            yield g.gap()
        elif r < 0.3:
            c.close()
            yield rng.choice([0.01, 0.5, g.ttl() + 0.05])
        elif r < 0.4:
            g.ready(sub)
            sub.subscribe(flt=flt)
            yield g.gap()


def m_idle(g, c, n, dom=None):
    """A v3 client that is silent, almost silent, or answers late."""
    rng = g.rng
    d = g.conf['domains'][c.dom]
    for _ in range(n):
        if c.conn is None:
            c.opts['reply'] = rng.choice([None, 0.0, 0.01, 0.2 *
                                          d['idle_max'], 0.45 * d['idle_max'],
                                          0.6 * d['idle_max']])
            c.connect()
            if rng.random() < 0.7:
                c.track()
            yield g.gap()
        m = d['idle_max']
        if rng.random() < 0.6:
            ttl = rng.choice([1, 2, 4, 6, 100])
            c.publish(rng.choice([21, 22]), how='next', ttl=ttl)
            m = min(m, max(d['idle_min'], ttl))
            yield g.gap()
        if rng.random() < 0.2:
            c.send('unpublish', service_id=rng.choice([21, 22]))
        f = rng.choice([0.3, 0.45, 0.5, 0.55, 0.65, 0.8, 0.9, 0.97, 1.02, 1.2,
                        2.5])
        yield m * f
        r = rng.random()
        if r < 0.25:
            c.send('ping')
        elif r < 0.4 and c.track_ta is not None:
            c.send('track', ta=c.track_ta, mtype='inform',
                   track_type='query')
        elif r < 0.5 and c.track_ta is not None:
            c.send('track', ta=c.track_ta, mtype='inform',
                   track_type='reply')
        elif r < 0.6:
            if rng.random() < 0.5:
                c.close(rng.choice(['close', 'vanish']))
            c.conn = None
        elif r < 0.7:
            c.send('track')
        elif r < 0.85:
            pass
        else:
            c.send('clients')
        yield g.gap()
        if rng.random() < 0.15:
            c.conn = None


def m_spy(g, c, n, what=('services', 'clients', 'subscriptions')):
    """A well-behaved client that keeps asking."""
    rng = g.rng
    for _ in range(n):
        g.ready(c)
        getattr(g, 'a_' + rng.choice(what))(c)
        yield rng.choice([g.gap(), 0.5, 1.0, 2.0])


def m_dup_id(g, a, b, n):
    """Two connections competing for one client id."""
    rng = g.rng
    for _ in range(n):
        if a.conn is None:
            a.opts['reply'] = rng.choice([0.0, 0.01, None])
            a.connect()
            if rng.random() < 0.7:
                a.track()
            if rng.random() < 0.6:
                a.publish(g.sid(), how='next')
            if rng.random() < 0.5:
                a.subscribe()
            yield g.gap()
        fate = rng.choice(['alive', 'vanish', 'part', 'close', 'rst', 'late'])
        old = a.conn
        if fate == 'vanish':
            a.close('vanish')
        elif fate == 'part':
            g.emit('part', old, 1)
        elif fate in ('close', 'rst'):
            a.close(fate)
        yield rng.choice([0, 0, 0.001, 0.3, 1.0])
        # the client keeps retrying, on the same or on new connections
        new = None
        tries = rng.choice([1, 2, 4, 8])
        for k in range(tries):
            if new is None or rng.random() < 0.3:
                if new is not None and rng.random() < 0.5:
                    g.emit('close', new, 'close')
                a2 = b if rng.random() < 0.15 else a
                a2.conn = None
                cid = a2.cid
                a2.cid = a.cid
                a2.connect()
                a2.cid = cid
                new = a2.conn
                holder = a2
            else:
                holder.hello(cid=a.cid)
            yield rng.choice([0.0, 0.01, 0.4, 1.0, 2.0])
            if rng.random() < 0.2:
                holder.send('ping')
        if rng.random() < 0.5:
            holder.publish(g.sid(), how='same')
            yield g.gap()
        if fate == 'part':
            g.emit('part', old, 0)
            yield g.gap()
        if fate == 'alive' and rng.random() < 0.7:
            g.emit('send', old, {'ta-cmd': 'ping', 'ta-id': 7000 + len(g.ops),
                                 'msg-type': 'request'})
            yield g.gap()
            g.emit('close', old, 'close')
        elif fate in ('alive', 'part', 'late'):
            g.emit('close', old, rng.choice(['close', 'rst']))
        yield rng.choice([g.gap(), 1.0, 3.0])
        a.conn = new if rng.random() < 0.5 else None
        if a.conn is None and new:
            g.emit('close', new, 'close')
            yield g.gap()


def m_bare(g, c, n):
    rng = g.rng
    for _ in range(n):
        g.a_bare(c)
        yield rng.choice([g.gap(), 0.5, 1.5, 1.99, 2.5, 3.3])
        r = rng.random()
        if r < 0.3:
            c.hello()
            yield g.gap()
            c.send('ping')
        elif r < 0.45:
            c.hello(vmin=9, vmax=9)
            yield rng.choice([0.1, 2.2, 3.4])
            c.hello()
        elif r < 0.6:
            c.close(rng.choice(['close', 'rst', 'vanish']))
        elif r < 0.7:
            c.send('ping')
            yield 1.0
            c.send('ping')
        elif r < 0.85:
            c.conn = None
        yield rng.choice([g.gap(), 1.0, 3.5])


def m_slow(g, slow, pub, n):
    """A subscriber that stops reading while a lot happens."""
    rng = g.rng
    slow.opts['swin'] = rng.choice([1, 3, 8, 20, 70])
    slow.conn = None
    slow.connect()
    if rng.random() < 0.5 and slow.vmax >= 3:
        slow.track()
    for _ in range(rng.choice([1, 1, 2])):
        slow.subscribe(flt='' if rng.random() < 0.7 else None)
    yield g.gap()
    for _ in range(n):
        g.emit('stall', slow.conn, 1)
        yield g.gap()
        total = rng.choice([10, 60, 130, 200, 300])
        for k in range(total):
            g.ready(pub)
            r = rng.random()
            if r < 0.7:
                pub.publish(g.sid(), how='next')
            elif r < 0.8:
                pub.send('unpublish', service_id=g.sid())
            elif r < 0.95:
                g.ready(slow)
                slow.send(rng.choice(['ping', 'ping', 'services', 'clients',
                                      'subscriptions']))
            else:
                pub.send('ping')
            if rng.random() < 0.15:
                yield rng.choice([0.0, 0.001, 0.01])
        if rng.random() < 0.6:
            for k in range(rng.choice([3, 150, 250])):
                slow.send(rng.choice(['ping', 'ping', 'services']))
        yield rng.choice([0.01, 0.1, 1.0])
        pub.send('ping')
        r = rng.random()
        if r < 0.6:
            g.emit('stall', slow.conn, 0)
            yield rng.choice([0.01, 0.5, 1.5])
            slow.send('ping')
        elif r < 0.75:
            # read a little, stop again
            g.emit('stall', slow.conn, 0)
            yield 0.001
            g.emit('stall', slow.conn, 1)
            yield 0.3
            g.emit('stall', slow.conn, 0)
        elif r < 0.9:
            slow.close(rng.choice(['rst', 'close']))
            yield g.gap()
            slow.connect()
            slow.subscribe(flt='')
        else:
            break
        yield g.gap()


def m_limit_fill(g, cl, what, n):
    """Run into a limit, release, run into it again."""
    rng = g.rng
    for _ in range(n):
        c = rng.choice(cl)
        g.ready(c)
        if what == 'services':
            c.publish(rng.randint(1, 8), how=rng.choice(['next', 'same',
                                                         'next']))
            yield g.gap()
            if rng.random() < 0.35:
                c.send('unpublish', service_id=rng.randint(1, 8))
        elif what == 'subscriptions':
            c.subscribe()
            yield g.gap()
            if rng.random() < 0.35:
                g.a_unsubscribe(c)
        if rng.random() < 0.12:
            c.close(rng.choice(['close', 'rst']))
            yield rng.choice([g.gap(), 0.01, g.ttl() + 0.05])
        yield g.gap()


def m_crowd(g, n, dom=0, hold=True):
    """Many connections competing for room."""
    rng = g.rng
    live = []
    for k in range(n):
        r = rng.random()
        if r < 0.62 or not live:
            c = Client(g, 'x%d' % len(g.clients), 100 + rng.randint(0, 12),
                       rng.randrange(len(g.users)), dom,
                       opts={'reply': 0.001})
            c.track_p = 0.2
            g.clients.append(c)
            c.connect(hello=rng.random() < 0.8)
            live.append(c)
            if rng.random() < 0.3:
                g.a_publish(c)
        else:
            c = live.pop(rng.randrange(len(live)))
            c.close(rng.choice(['close', 'close', 'rst', 'vanish']))
        yield rng.choice([0, 0, 0, 0.002, 0.05, g.gap()])


def m_garbage(g, c, n):
    rng = g.rng
    for _ in range(n):
        if rng.random() < 0.2:
            c.conn = None
            c.connect(hello=False)
            g.emit('raw', c.conn, malformed(rng))
            c.conn = None
        else:
            g.ready(c)
            if rng.random() < 0.6:
                c.subscribe()
            if rng.random() < 0.4 and c.vmax >= 3 and c.track_ta is None:
                c.track()
            g.a_garbage(c)
        yield g.gap()


def m_cross(g, victim, attacker, n):
    rng = g.rng
    for _ in range(n):
        g.ready(victim)
        sid = g.sid()
        victim.publish(sid, how='next')
        sub = None
        if rng.random() < 0.6:
            sub = victim.subscribe()
        yield g.gap()
        if rng.random() < 0.5:
            victim.close(rng.choice(['close', 'rst']))
            yield g.gap()
        g.ready(attacker)
        for _ in range(rng.choice([1, 2, 3])):
            r = rng.random()
            if r < 0.25:
                attacker.publish(sid, how='next')
            elif r < 0.4:
                attacker.publish(sid, how='same')
            elif r < 0.6:
                attacker.send('unpublish', service_id=sid)
            elif r < 0.75 and sub is not None:
                attacker.send('unsubscribe', subscription_id=sub)
            elif r < 0.8 and sub is not None:
                attacker.subscribe(sub_id=sub)
            else:
                # the identity itself
                own = attacker.cid
                attacker.conn = None
                attacker.cid = victim.cid
                attacker.connect()
                attacker.cid = own
                attacker.publish(sid, how=rng.choice(['same', 'next']))
                yield g.gap()
                if rng.random() < 0.8:
                    attacker.close(rng.choice(['close', 'rst']))
                g.ready(attacker)
            yield g.gap()
        g.ready(victim)
        victim.publish(sid, how=rng.choice(['same', 'next']))
        if sub is not None and sub in victim.subs and rng.random() < 0.5:
            victim.send('unsubscribe', subscription_id=sub)
        yield g.gap()


# ---------------------------------------------------------------------------
# profiles
# ---------------------------------------------------------------------------

def base(prop, seed, **kw):
    g = Gen(prop, seed)
    g.basic(**kw)
    return g


def watchers(g, n=1):
    """Subscribers that stay connected and see everything."""
    for k in range(n):
        c = Client(g, 'w%d' % k, 500 + k, g.rng.randrange(len(g.users)),
                   g.rng.randrange(len(g.conf['domains'])),
                   opts={'reply': 0.001}, vmax=g.rng.choice([2, 3]))
        c.track_p = 1.0
        g.clients.append(c)
        c.connect()
        c.subscribe(flt='' if k == 0 else None)
        if c.vmax >= 3:
            c.track()
    return g.clients[len(g.clients) - n:]


def weights(g, over=None):
    """Random subset of the directory operations with random weights."""
    rng = g.rng
    w = dict(W_DIR)
    w.update(over or {})
    for k in list(w):
        r = rng.random()
        if r < 0.2 and k not in ('publish',):
            w[k] = 0
        elif r < 0.4:
            w[k] *= 3
    return w


def nsteps(g, tier, lo=15, hi=60):
    n = g.rng.randint(lo, hi)
    return n * 3 if tier == 'thorough' and g.rng.random() < 0.2 else n


def p_P02(seed, tier):
    g = base('P02', seed, users=1)
    rng = g.rng
    g.net_faults()
    g.pace = rng.choice([0.1, 0.5, 1.0])
    g.ttls = rng.choice([[1, 2], [1, 2, 3, 5], [2, 30], [0, 1, 2]])
    g.sids = list(range(1, rng.choice([1, 2, 3, 5]) + 1))
    ws = watchers(g, rng.choice([0, 1, 1, 2]))
    main = [c for c in g.clients if c not in ws]
    g.add(g.steps(nsteps(g, tier), weights(g, {'subscribe': 5,
                                               'unsubscribe': 3}), main))
    if rng.random() < 0.6:
        g.add(m_filter_flip(g, rng.choice(main), rng.choice(g.clients),
                            g.sid(), rng.randint(2, 8)), rng.random())
    if rng.random() < 0.4:
        g.add(m_orphan(g, rng.choice(main), main, g.sid(),
                       rng.randint(1, 3)), rng.random())
    if rng.random() < 0.4:
        g.add(m_takeover(g, rng.choice(main), rng.choice(main), g.sid(),
                         rng.randint(1, 4)), rng.random())
    g.weave()
    return g.scenario()


def p_P03(seed, tier):
    g = base('P03', seed, users=1)
    rng = g.rng
    if rng.random() < 0.05:
        return p_P03_long(g)
    g.net_faults(0.7)
    g.pace = rng.choice([0.1, 0.5])
    g.ttls = rng.choice([[1, 2], [1, 2, 3, 5], [2, 30], [0, 1], [1, 1000]])
    g.sids = list(range(1, rng.choice([1, 2, 3]) + 1))
    ws = watchers(g, rng.choice([0, 1, 1]))
    main = [c for c in g.clients if c not in ws]
    for k in range(rng.choice([1, 1, 2, 3])):
        g.add(m_orphan(g, rng.choice(main), main, g.sid(),
                       rng.randint(1, 4)), rng.random())
    if rng.random() < 0.5:
        g.add(m_takeover(g, rng.choice(main), rng.choice(main), g.sid(),
                         rng.randint(1, 5)), rng.random())
    if rng.random() < 0.5:
        g.add(g.steps(rng.randint(5, 30), {'publish': 5, 'close': 3,
                                           'services': 2, 'rst': 1,
                                           'vanish': .3, 'senderr': .5,
                                           'recverr': .5, 'unpublish': 1,
                                           'sleep': .5},
                      main))
    if rng.random() < 0.4:
        g.add(m_idle(g, rng.choice(main), rng.randint(1, 3)))
    g.weave()
    return g.scenario()


def p_P03_long(g):
    """Times to live longer than anything a poll can wait for at once."""
    rng = g.rng
    g.long_p = 0
    g.ttls = rng.choice([[3000, 100000], [2147483, 2147484, 5], [7000000],
                         [1 << 31, 10], [1 << 40, 30000], [(1 << 63) - 1]])
    g.sids = [1, 2, 3]
    c, d = g.clients[0], g.clients[-1]

    def life():
        for _ in range(rng.randint(1, 3)):
            g.ready(c)
            for sid in g.sids:
                c.publish(sid, how='next', ttl=g.ttl())
            yield 0.01
            c.close('close')
            left = min(max(g.ttls), 8000000)
            for f in sorted(rng.random() for _ in range(rng.randint(0, 3))):
                yield left * f / 3
                g.ready(d)
                d.send('services')
                if rng.random() < 0.3:
                    d.publish(rng.choice(g.sids), how='next', ttl=g.ttl())
                yield 0.02
                d.close('close')
            yield rng.choice([0.5, left, left - 1, left + 1])
        g.ready(d)
        d.send('services')
        yield 0.05
        d.close('close')
    g.add(life())
    g.weave()
    return g.scenario()


def p_P04(seed, tier):
    g = base('P04', seed, users=1)
    rng = g.rng
    g.net_faults(0.7)
    g.pace = rng.choice([0.05, 0.3])
    g.ttls = rng.choice([[1, 2], [2, 5, 30], [0, 3]])
    g.sids = list(range(1, rng.choice([1, 2, 3]) + 1))
    ws = watchers(g, rng.choice([0, 1]))
    main = [c for c in g.clients if c not in ws]
    g.add(g.steps(nsteps(g, tier, 20, 80),
                  weights(g, {'publish': 25, 'unpublish': 5, 'services': 6,
                              'subscribe': 1.5}), main))
    if rng.random() < 0.5:
        g.add(m_takeover(g, rng.choice(main), rng.choice(main), g.sid(),
                         rng.randint(1, 5)), rng.random())
    if rng.random() < 0.3:
        g.add(m_orphan(g, rng.choice(main), main, g.sid(), 2), rng.random())
    g.weave()
    return g.scenario()


def p_P05(seed, tier):
    g = base('P05', seed, sockets=1 + int(seed.split('/')[-1]) % 3 // 2,
             users=2 + (int(seed.split('/')[-1]) % 3),
             n_clients=4)
    rng = g.rng
    g.net_faults(0.5)
    g.pace = rng.choice([0.05, 0.3])
    g.ttls = rng.choice([[1, 2], [2, 5], [3, 30]])
    g.sids = [1, 2]
    for i, c in enumerate(g.clients):
        c.user = i % len(g.users)
        if rng.random() < 0.3:
            c.cid = 10 + rng.randint(0, 2)
    for c in g.clients:
        if g.users[c.user][0] == 'tls' and rng.random() < 0.2:
            c.opts['attr_faults'] = {'tls.peer_subject_key_id': 1}
    ws = watchers(g, rng.choice([0, 1]))
    main = [c for c in g.clients if c not in ws]
    for k in range(rng.choice([1, 2])):
        v, a = rng.sample(main, 2)
        g.add(m_cross(g, v, a, rng.randint(1, 4)), rng.random())
    if rng.random() < 0.7:
        g.add(g.steps(rng.randint(5, 40), weights(g, {'unsubscribe': 5,
                                                      'subscribe': 5,
                                                      'reconnect': 2,
                                                      'unpublish': 6}),
                      main))
    if rng.random() < 0.3:
        g.add(m_orphan(g, rng.choice(main), main, g.sid(), 2), rng.random())
    g.weave()
    return g.scenario()


def p_P06(seed, tier):
    g = base('P06', seed, users=1 + int(seed.split('/')[-1]) % 3)
    rng = g.rng
    g.net_faults(0.5)
    g.pace = rng.choice([0.05, 0.3])
    g.ttls = rng.choice([[1, 2], [0, 1], [2, 5]])
    g.sids = [1, 2, 3, 4]
    lim = {'user': {}, 'total': {}}
    for cls in ('user', 'total'):
        for what in ('clients', 'services', 'subscriptions'):
            if rng.random() < 0.5:
                lim[cls][what] = rng.choice([1, 1, 2, 3, 4])
                if what != 'clients' and rng.random() < 0.08:
                    lim[cls][what] = 0
    if 'clients' in lim['total']:
        lim['total']['clients'] += 1
    g.conf['limits'] = lim
    for k in range(rng.choice([1, 2, 3])):
        what = rng.choice(['services', 'subscriptions', 'clients'])
        if what == 'clients':
            g.add(m_crowd(g, rng.randint(4, 14)), rng.random() * 0.1)
        else:
            g.add(m_limit_fill(g, g.clients[:], what, rng.randint(4, 20)),
                  rng.random() * 0.1)
    if rng.random() < 0.5:
        g.add(g.steps(rng.randint(5, 40), weights(g), g.clients[:]))
    if rng.random() < 0.3:
        g.add(m_orphan(g, rng.choice(g.clients[:3]), g.clients[:3], g.sid(),
                       2))
    if rng.random() < 0.3:
        g.add(m_cross(g, g.clients[0], g.clients[-1], 2))
    if rng.random() < 0.3:
        g.add(m_takeover(g, g.clients[0], g.clients[-1], g.sid(), 3))
    g.weave()
    return g.scenario()


def p_P07(seed, tier):
    g = base('P07', seed, users=rng_users(seed))
    rng = g.rng
    g.net_faults(1.2)
    g.pace = rng.choice([0.02, 0.2])
    g.ttls = [1, 2, 5]
    for c in g.clients:
        if rng.random() < 0.4:
            c.opts['swin'] = rng.choice([1, 2, 5, 30])
    w = weights(g, {'ping': 6, 'services': 5, 'clients': 3,
                    'subscriptions': 3, 'hello': 2, 'track': 2, 'inform': 2,
                    'unsubscribe': 4, 'subscribe': 4, 'unpublish': 4,
                    'stall': 1, 'garbage': 1, 'bare': .5})
    g.add(g.steps(nsteps(g, tier, 30, 100), w))
    if rng.random() < 0.3:
        g.add(m_slow(g, g.clients[0], g.clients[-1], 1))
    g.weave()
    return g.scenario()


def rng_users(seed):
    return 1 + int(seed.split('/')[-1]) % 2


def p_P08(seed, tier):
    g = base('P08', seed, users=rng_users(seed))
    rng = g.rng
    g.net_faults(0.8)
    g.pace = rng.choice([0.05, 0.5])
    g.ttls = rng.choice([[1, 2], [2, 5, 30]])
    g.sids = list(range(1, rng.choice([2, 5, 20, 40]) + 1))
    w = weights(g, {'services': 10, 'clients': 5, 'subscriptions': 5,
                    'subscribe': 5, 'track': 1, 'inform': 1,
                    'publish': 12 + len(g.sids)})
    g.add(g.steps(nsteps(g, tier, 30, 90), w))
    if rng.random() < 0.5:
        g.add(m_idle(g, rng.choice(g.clients), rng.randint(1, 3)))
    if rng.random() < 0.4:
        g.add(m_orphan(g, rng.choice(g.clients), g.clients[:], g.sid(), 2))
    if rng.random() < 0.5:
        g.add(m_spy(g, rng.choice(g.clients), rng.randint(2, 8)))
    g.weave()
    return g.scenario()


def p_P09(seed, tier):
    g = base('P09', seed, users=1, idle=None)
    rng = g.rng
    g.net_faults(0.5)
    g.pace = rng.choice([0.1, 0.5])
    g.ttls = [1, 2, 4, 100]
    for c in g.clients:
        if rng.random() < 0.7:
            c.vmin, c.vmax = 2, 3
    for k in range(rng.choice([1, 2, 2, 3])):
        if k < len(g.clients):
            g.add(m_idle(g, g.clients[k], rng.randint(2, 6)), rng.random())
    if rng.random() < 0.4:
        g.add(m_spy(g, g.clients[-1], rng.randint(2, 8)))
    if rng.random() < 0.3 and len(g.clients) > 1:
        g.add(m_takeover(g, g.clients[0], g.clients[-1], 21, 3))
    if rng.random() < 0.3:
        g.add(m_dup_id(g, g.clients[-1], g.clients[0], 2))
    if rng.random() < 0.3:
        g.add(g.steps(rng.randint(4, 12), {'track': 2, 'inform': 3,
                                           'publish': 1, 'part': 1,
                                           'senderr': .3, 'sleep': .7}))
    g.weave()
    d = g.conf['domains'][0]
    g.extra['t_end'] = max([o[0] for o in g.ops] + [0]) + \
        rng.choice([0, 1.3 * min(d['idle_max'], 10)])
    return g.scenario()


def p_P10(seed, tier):
    g = base('P10', seed, users=rng_users(seed))
    rng = g.rng
    g.net_faults(0.6)
    g.pace = rng.choice([0.1, 0.5])
    g.ttls = [1, 2, 5, 30]
    if rng.random() < 0.5:
        for c in g.clients:
            c.cid = 10 + rng.randint(0, 1)
    if rng.random() < 0.35:
        # a retrying client needs one connection more than there are ids
        g.conf['limits'] = rng.choice([
            {'user': {'clients': rng.choice([1, 2, 3])}},
            {'total': {'clients': rng.choice([2, 3, 4])}},
            {'user': {'clients': 1}, 'total': {'clients': 3}},
            {'user': {'services': 1}}])
    for k in range(rng.choice([1, 1, 2])):
        a, b = rng.choice(g.clients), rng.choice(g.clients)
        g.add(m_dup_id(g, a, b, rng.randint(1, 4)), rng.random())
    if rng.random() < 0.5:
        g.add(g.steps(rng.randint(5, 40), weights(g, {'reconnect': 6,
                                                      'vanish': 2,
                                                      'hello': 3, 'rst': 1})))
    g.weave()
    g.extra['t_end'] = max([o[0] for o in g.ops] + [0]) + rng.choice([0, 4])
    return g.scenario()


def p_P11(seed, tier):
    g = base('P11', seed, users=rng_users(seed))
    rng = g.rng
    g.net_faults(0.6)
    g.pace = rng.choice([0.1, 0.5])
    d = g.conf['domains'][0]
    d['vmin'], d['vmax'] = rng.choice([(2, 3), (2, 3), (2, 2), (3, 3)])
    for k in range(rng.choice([1, 2, 3])):
        if k < len(g.clients):
            g.add(m_bare(g, g.clients[k], rng.randint(1, 5)), rng.random())
    if rng.random() < 0.7:
        g.add(g.steps(rng.randint(5, 30), {'hello': 8, 'bare': 6, 'ping': 2,
                                           'publish': 2, 'subscribe': 2,
                                           'close': 2, 'services': 1,
                                           'connect': 2, 'reconnect': 1,
                                           'track': 1, 'sleep': .5}))
    if rng.random() < 0.3:
        g.add(m_dup_id(g, g.clients[0], g.clients[-1], 2))
    if rng.random() < 0.3:
        g.add(m_spy(g, g.clients[-1], 4))
    g.weave()
    g.extra['t_end'] = max([o[0] for o in g.ops] + [0]) + rng.choice([0, 3.5])
    return g.scenario()


def p_P12(seed, tier):
    g = base('P12', seed, users=rng_users(seed), n_dom=1 +
             (int(seed.split('/')[-1]) % 5 == 0),
             sockets=1 + int(seed.split('/')[-1]) % 3, n_clients=2)
    rng = g.rng
    g.net_faults(0.6)
    g.pace = rng.choice([0.05, 0.3])
    g.ttls = [0, 1, 2]
    if rng.random() < 0.75:
        g.conf['limits'] = {'user': {}, 'total':
                            {'clients': rng.choice([1, 2, 3, 5, 17])}}
    for k in range(rng.choice([1, 2])):
        g.add(m_crowd(g, rng.choice([6, 12, 25, 40]),
                      rng.randrange(len(g.conf['domains']))),
              rng.random() * 0.5)
    acc = {'accepterr': 4, 'close': 3, 'connect': 4, 'rst': 2, 'vanish': 1,
           'senderr': 1, 'recverr': 1, 'ping': 2, 'bare': 2, 'publish': 1,
           'garbage': 1, 'sleep': .5}
    if rng.random() < 0.8:
        g.add(g.steps(rng.randint(5, 40), acc))
    for c in g.clients:
        if rng.random() < 0.15:
            c.opts['attr_faults'] = {rng.choice(
                ['xcm.remote_addr', 'xcm.transport',
                 'set:tcp.keepalive']): 1}
    g.weave()
    if rng.random() < 0.15:
        # connections failing while they are being set up
        for o in g.ops:
            if o[1] == 'connect' and rng.random() < 0.3:
                o[4]['attr_faults'] = {'xcm.remote_addr': 1}
    g.extra['t_end'] = max([o[0] for o in g.ops] + [0]) + rng.choice([0, 3.5])
    return g.scenario()


def p_P13(seed, tier):
    g = base('P13', seed, users=1, n_clients=3, vmix=True,
             idle=(4, 60) if int(seed.split('/')[-1]) % 3 else (1, 4))
    rng = g.rng
    g.net_faults(0.5)
    g.pace = rng.choice([0.02, 0.1])
    g.ttls = [1, 5, 30]
    g.sids = list(range(1, rng.choice([1, 3, 6]) + 1))
    g.add(m_slow(g, g.clients[0], g.clients[1], rng.choice([1, 1, 2])))
    if rng.random() < 0.3:
        g.add(m_slow(g, g.clients[2], g.clients[1], 1), 0.02)
    elif rng.random() < 0.5:
        g.add(m_spy(g, g.clients[2], rng.randint(2, 8)))
    g.weave()
    return g.scenario()


def p_P01(seed, tier):
    g = base('P01', seed, users=1 + int(seed.split('/')[-1]) % 3)
    rng = g.rng
    g.net_faults(1.0)
    g.pace = rng.choice([0.05, 0.3])
    g.ttls = rng.choice([[0, 1], [1, 2, 5]])
    ws = watchers(g, rng.choice([0, 1, 1]))
    main = [c for c in g.clients if c not in ws]
    for k in range(rng.choice([1, 1, 2])):
        g.add(m_garbage(g, rng.choice(main), rng.randint(2, 8)),
              rng.random() * 0.2)
    w = weights(g, {'garbage': 3, 'rst': 2, 'vanish': 1, 'senderr': 2,
                    'recverr': 2, 'accepterr': 1, 'stall': .5, 'part': .5,
                    'hello': 1, 'bare': 1, 'track': 1, 'inform': 1,
                    'sleep': .3})
    g.add(g.steps(nsteps(g, tier, 10, 50), w, main))
    if rng.random() < 0.25:
        g.add(m_dup_id(g, rng.choice(main), rng.choice(main), 2))
    if rng.random() < 0.25:
        g.add(m_orphan(g, rng.choice(main), main, g.sid(), 2))
    if rng.random() < 0.25:
        g.add(m_takeover(g, rng.choice(main), rng.choice(main), g.sid(), 3))
    if rng.random() < 0.15:
        g.add(m_slow(g, rng.choice(main), rng.choice(main), 1))
    if rng.random() < 0.25:
        g.add(m_idle(g, rng.choice(main), 2))
    if rng.random() < 0.3:
        g.add(m_cross(g, rng.choice(main), rng.choice(main), 2))
    g.weave()
    if rng.random() < 0.15:
        for o in g.ops:
            if o[1] == 'connect' and rng.random() < 0.3:
                o[4]['attr_faults'] = {rng.choice(
                    ['xcm.remote_addr', 'xcm.transport', 'set:tcp.keepalive',
                     'tls.peer_subject_key_id']): 1}
    return g.scenario()


def p_P15(seed, tier):
    g = base('P15', seed, users=rng_users(seed),
             n_dom=1 + int(seed.split('/')[-1]) % 3,
             sockets=1 + int(seed.split('/')[-1]) % 2)
    rng = g.rng
    g.net_faults(1.0)
    g.pace = rng.choice([0.05, 0.5])
    g.ttls = [0, 1, 2, 5]
    if rng.random() < 0.3:
        g.conf['limits'] = {'total': {'clients': rng.choice([1, 2, 4])}}
    w = weights(g, {'track': 1, 'hello': 1, 'bare': 2, 'stall': 1, 'rst': 1,
                    'vanish': 1, 'senderr': 1, 'recverr': .5,
                    'accepterr': .5, 'garbage': .5})
    g.add(g.steps(rng.randint(0, 50), w))
    if rng.random() < 0.25:
        g.add(m_slow(g, g.clients[0], g.clients[-1], 1))
    if rng.random() < 0.25:
        g.add(m_dup_id(g, g.clients[0], g.clients[-1], 2))
    if rng.random() < 0.25:
        g.add(m_orphan(g, g.clients[0], g.clients[:], g.sid(), 2))
    if rng.random() < 0.2:
        g.add(m_crowd(g, 8))
    g.weave()
    # the signal: anywhere, also in the middle of a turn or of the start-up
    end = max([o[0] for o in g.ops] + [0.0])
    t = rng.choice([rng.random() * end, rng.random() * end,
                    end * 0.99, 0.0, 0.0005])
    if g.ops and rng.random() < 0.4:
        t = rng.choice(g.ops)[0] + rng.choice([0, 0.0005, 0.001])
    n = rng.choice([0, 0, 1, 2, 3, 5, 8, 13])
    if t == 0.0:
        n = rng.randint(0, 30)
    signo = rng.choice([15, 15, 2, 1])
    g.ops.append([round(t, 6), 'signal', signo, n])
    if rng.random() < 0.3:
        # another one, possibly while the server shuts down
        g.ops.append([round(t, 6), 'signal', rng.choice([15, 2, 1]),
                      rng.choice([0, n + rng.randint(1, 4),
                                  n + rng.randint(1, 30)])])
    g.end = {'restart': False}
    return g.scenario()


def p_P17(seed, tier):
    n_dom = 2 + int(seed.split('/')[-1]) % 2
    g = base('P17', seed, users=rng_users(seed), n_dom=n_dom,
             sockets=1 + int(seed.split('/')[-1]) % 2, n_clients=5)
    rng = g.rng
    g.net_faults(0.6)
    g.pace = rng.choice([0.05, 0.4])
    g.ttls = [1, 2, 5]
    g.sids = [1, 2]
    for i, c in enumerate(g.clients):
        c.dom = i % n_dom
        c.cid = 10 + rng.randint(0, 2)
    if rng.random() < 0.3:
        for d in g.conf['domains']:
            d['vmin'], d['vmax'] = rng.choice([(2, 3), (2, 2), (3, 3)])
    if rng.random() < 0.5:
        g.conf['limits'] = {'user': {k: rng.choice([1, 2, 3]) for k in
                                     ('services', 'subscriptions')
                                     if rng.random() < 0.5},
                            'total': {k: rng.choice([2, 3]) for k in
                                      ('clients', 'services',
                                       'subscriptions')
                                      if rng.random() < 0.5}}
    w = weights(g, {'services': 4, 'clients': 3, 'subscriptions': 3,
                    'subscribe': 5, 'unsubscribe': 3, 'garbage': .5,
                    'vanish': .5, 'bare': 1, 'senderr': .5})
    if any(x.get('clients') for x in g.conf['limits'].values()):
        w['accepterr'] = 1
    g.add(g.steps(nsteps(g, tier, 20, 70), w))
    if rng.random() < 0.3:
        g.add(m_orphan(g, g.clients[0], g.clients[:], 1, 2))
    if rng.random() < 0.3:
        g.add(m_crowd(g, 8, 0))
    if rng.random() < 0.3:
        g.add(m_idle(g, g.clients[1], 2))
    if rng.random() < 0.2:
        g.add(m_slow(g, g.clients[2], g.clients[2 + n_dom], 1)
              if 2 + n_dom < len(g.clients) else iter(()))
    g.weave()
    return g.scenario()


class Residents:
    """Clients that stay, or a service of theirs does, while the activity of
    the others is repeated.  What they do, they repeat as well, and undo."""

    def __init__(self, g):
        rng = self.rng = g.rng
        self.g = g
        self.dom = 0
        self.addr = g.conf['domains'][0]['sockets'][0]
        self.user = rng.randrange(len(g.users))
        self.script = []
        self.moving = rng.random() < 0.5        # fresh ids every time
        what = rng.choice(['stay', 'orphan', 'both'])
        self.start = []
        if what != 'orphan':
            v = rng.choice([2, 3])
            self.start += self.conn(0.0, 'res', 900, v)
            self.start.append([0.001, 'send', 'res', self.msg(
                'track', 1)])
            if rng.random() < 0.5:
                self.start.append([0.002, 'send', 'res', self.msg(
                    'subscribe', 2, subscription_id=90000)])
            if rng.random() < 0.5:
                self.start.append([0.002, 'send', 'res', self.msg(
                    'publish', 3, service_id=90000, generation=1000,
                    service_props={'name': ['r']}, ttl=2)])
            for _ in range(rng.randint(1, 6)):
                self.script += self.resident(len(self.script))
        if what != 'stay':
            self.start += self.conn(0.0, 'own', 901, 3)
            self.start.append([0.001, 'send', 'own', self.msg(
                'publish', 1, service_id=90100, generation=1000,
                service_props={'name': ['o']}, ttl=4000)])
            self.start.append([0.03, 'close', 'own', 'close'])
            for n in range(rng.randint(1, 3)):
                self.script += self.visit(n)
        self.script.sort(key=lambda o: o[0])

    def msg(self, cmd, ta, mtype='request', **kw):
        m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': mtype}
        for k, v in kw.items():
            m[k.replace('_', '-')] = v
        return m

    def conn(self, t, name, cid, v):
        remote, ski = self.g.remote(self.user, name)
        opts = {'remote': remote, 'reply': 0.001}
        if ski:
            opts['ski'] = ski
        return [[t, 'connect', name, self.addr, opts],
                [t, 'send', name, self.msg(
                    'hello', 0, client_id=cid, protocol_minimum_version=v,
                    protocol_maximum_version=v)]]

    def resident(self, n):
        rng = self.rng
        t = 0.1 + rng.random()
        ta = 10 + n * 4
        i = 91000 + n
        r = rng.choice(['pub', 'pub', 'sub', 'sub', 'list', 'ping', 'bad',
                        'again', 'inform'])

        def ops(*msgs):
            d = rng.choice([0.0, 0.02, 0.1])
            return [[t + k * d, 'send', 'res', m]
                    for k, m in enumerate(msgs)]
        if r == 'pub':
            return ops(self.msg('publish', ta, service_id=i, generation=1000,
                                service_props={'name': ['r']}, ttl=3),
                       self.msg('publish', ta + 1, service_id=i,
                                generation=1001, service_props={}, ttl=3),
                       self.msg('unpublish', ta + 2, service_id=i))
        if r == 'sub':
            kw = {'filter': '(name=%d)' % i} if rng.random() < 0.5 else {}
            return ops(self.msg('subscribe', ta, subscription_id=i, **kw),
                       self.msg('ping', ta + 1),
                       self.msg('unsubscribe', ta + 2, subscription_id=i))
        if r == 'list':
            return ops(*[self.msg(rng.choice(
                ['services', 'subscriptions', 'clients']), ta + k)
                for k in range(3)])
        if r == 'bad':
            return ops(self.msg('unsubscribe', ta, subscription_id=i),
                       self.msg('unpublish', ta + 1, service_id=i),
                       self.msg('subscribe', ta + 2, subscription_id=i,
                                filter='(('),
                       self.msg('services', ta + 3, filter='(a'))
        if r == 'again':
            return ops(self.msg('hello', ta, client_id=900,
                                protocol_minimum_version=2,
                                protocol_maximum_version=3),
                       self.msg('publish', ta + 1, service_id=90000,
                                generation=1000,
                                service_props={'name': ['r']}, ttl=2),
                       self.msg('publish', ta + 2, service_id=90100,
                                generation=999, service_props={}, ttl=2))
        if r == 'inform':
            return ops(self.msg('track', 1, 'inform', track_type='query'),
                       self.msg('track', 1, 'inform', track_type='query'))
        return ops(self.msg('ping', ta))

    def visit(self, n):
        """Somebody is back, with or without claiming what is left of him."""
        rng = self.rng
        t = 0.1 + rng.random() + 2 * n
        cid = rng.choice([901, 901, 902])
        name = 'vis%d' % n
        ops = self.conn(t, name, cid, rng.choice([2, 3]))
        ta = 1
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            t += rng.choice([0.0, 0.01, 0.2])
            r = rng.choice(['claim', 'next', 'sub', 'pub', 'other'])
            if r == 'claim':
                m = self.msg('publish', ta, service_id=90100, generation=1000,
                             service_props={'name': ['o']}, ttl=4000)
            elif r == 'next':
                m = self.msg('publish', ta, service_id=90100,
                             generation='next', service_props={}, ttl=4000)
            elif r == 'sub':
                m = self.msg('subscribe', ta, subscription_id=92000 + n * 10
                             + ta)
            elif r == 'pub':
                m = self.msg('publish', ta, service_id=92000 + n * 10 + ta,
                             generation=1000, service_props={}, ttl=1)
            else:
                m = self.msg('unpublish', ta, service_id=92000 + n * 10)
            ops.append([t, 'send', name, m])
            ta += 1
        t += rng.choice([0.0, 0.01, 0.3])
        ops.append([t, 'close', name, rng.choice(['close', 'rst'])])
        return ops

    def ops(self, k, t0):
        out = []
        if not k:
            out += [[round(t0 + o[0], 6)] + o[1:] for o in self.start]
        n = 0
        for o in self.script:
            o = [round(t0 + o[0], 6)] + o[1:]
            if o[2] != 'res':
                o[2] = '%s_%d' % (o[2], k)
            if o[1] == 'send':
                m = o[3] = dict(o[3])
                if m.get('generation') == 'next':
                    n += 1
                    m['generation'] = 2000 + k * 100 + n
                if o[2] == 'res' and m['ta-id'] > 3:
                    m['ta-id'] += 1000 * k
                for f in ('service-id', 'subscription-id'):
                    if self.moving and m.get(f, 0) >= 91000:
                        m[f] += 100 * k
            out.append(o)
        return out


def p_P18(seed, tier):
    g = base('P18', seed, users=rng_users(seed))
    rng = g.rng
    g.net_faults(0.4)
    g.pace = rng.choice([0.02, 0.1])
    g.ttls = rng.choice([[0, 1], [1], [1, 2]])
    g.sids = [1, 2, 3]
    if rng.random() < 0.4:
        g.conf['limits'] = {'user': {'services': 2, 'subscriptions': 2},
                            'total': {'clients': 4}}
    w = weights(g, {'hello': 1, 'bare': 1.5, 'rst': 1, 'vanish': 0,
                    'senderr': .5, 'recverr': .5, 'track': 1, 'garbage': 1,
                    'reconnect': 2, 'stall': .3})
    r = rng.random()
    if r < 0.8:
        g.add(g.steps(rng.randint(3, 25), w))
    if rng.random() < 0.4:
        g.add(m_orphan(g, g.clients[0], g.clients[:], g.sid(), 2))
    if rng.random() < 0.4:
        g.add(m_takeover(g, g.clients[0], g.clients[-1], g.sid(), 2))
    if rng.random() < 0.3:
        g.add(m_dup_id(g, g.clients[0], g.clients[-1], 1))
    if rng.random() < 0.3:
        g.add(m_cross(g, g.clients[0], g.clients[-1], 1))
    if rng.random() < 0.15:
        g.add(m_crowd(g, 8))
    if rng.random() < 0.1:
        g.add(m_slow(g, g.clients[0], g.clients[-1], 1))
    g.weave()
    g.odd_ids()
    # repeat the very same activity, with drained gaps and measurements
    ops = sorted(g.ops, key=lambda o: o[0])
    span = (ops[-1][0] if ops else 0.0) + 1.0
    conns = [o[2] for o in ops if o[1] == 'connect']
    maxd = max(d['idle_max'] for d in g.conf['domains'])
    gap = max(g.ttls) * 2 + 5.5
    del maxd
    allops = []
    reps = 5
    # ... by the same or ever new users, with the same or ever new ids
    fresh_ids = rng.random() < 0.4
    fresh_users = rng.random() < 0.5
    res = Residents(g) if rng.random() < 0.4 else None
    if res is not None:
        span = max(span, max([o[0] for o in res.script] + [0]) + 1.0)
    for k in range(reps):
        t0 = k * (span + gap)
        if res is not None:
            allops += res.ops(k, t0)

        def ren(x, k=k):
            return "%s_%d" % (x, k)
        for o in ops:
            o2 = [round(o[0] + t0, 6)] + o[1:]
            if k and fresh_ids and o2[1] == 'send':
                o2[3] = dict(o2[3])
                for f in ('client-id', 'service-id', 'subscription-id'):
                    if type(o2[3].get(f)) is int:
                        o2[3][f] = (o2[3][f] + k * 100003) % (1 << 63)
            if k and fresh_users and o2[1] == 'connect':
                o2[4] = dict(o2[4])
                r = o2[4].get('remote', '')
                o2[4]['remote'] = r.replace(':10.', ':%d.' % (10 + k), 1)
                if o2[4].get('ski'):
                    o2[4]['ski'] = '%02x' % k + o2[4]['ski'][2:]
            if o2[1] in ('connect', 'send', 'raw', 'close', 'stall', 'part',
                         'rst', 'fault'):
                o2[2] = ren(o2[2])
            allops.append(o2)
        for c in conns:
            allops.append([round(t0 + span, 6), 'part', ren(c), 0])
            allops.append([round(t0 + span, 6), 'stall', ren(c), 0])
            allops.append([round(t0 + span, 6), 'close', ren(c), 'close'])
        allops.append([round(t0 + span + 0.01, 6), 'keepalive'])
        allops.append([round(t0 + span + gap - 0.2, 6), 'measure', k] +
                       ([['res']] if res is not None else []))
    g.ops = allops
    if rng.random() < 0.7:
        g.sched.pop('stall_p', None)
    return g.scenario()


def p_P20(seed, tier):
    g = base('P20', seed, users=1)
    rng = g.rng
    g.net_faults(0.5)
    g.pace = rng.choice([0.1, 0.5, 1.0])
    g.ttls = rng.choice([[1, 2, 5], [2, 30, 3600]])
    ws = watchers(g, rng.choice([0, 1]))
    main = [c for c in g.clients if c not in ws]
    w = weights(g, {'clients': 4, 'services': 3, 'jump': 4, 'track': 1,
                    'inform': 1, 'bare': 1, 'vanish': .5})
    g.add(g.steps(nsteps(g, tier, 15, 50), w, main))
    if rng.random() < 0.6:
        g.add(m_idle(g, rng.choice(main), rng.randint(1, 4)))
    if rng.random() < 0.6:
        g.add(m_orphan(g, rng.choice(main), main, g.sid(), 2))
    if rng.random() < 0.3:
        g.add(m_dup_id(g, rng.choice(main), rng.choice(main), 2))
    if rng.random() < 0.4:
        g.add(m_bare(g, rng.choice(main), 2))
    g.weave()
    g.extra['t_end'] = max([o[0] for o in g.ops] + [0]) + rng.choice([0, 5])
    return g.scenario()


def p_P14(seed, tier):
    from . import loop
    return loop.make(seed, tier)


def p_P16(seed, tier):
    from . import api
    return api.make(seed, tier)


def p_P19(seed, tier):
    from . import restart
    return restart.make(seed, tier)


def p_P21(seed, tier):
    from . import pafc
    return pafc.make(seed, tier)


PROFILES = {k[2:]: v for k, v in list(globals().items())
            if k.startswith('p_P') and len(k) == 5}


def make(prop, seed, tier='quick'):
    scn = PROFILES[prop](str(seed), tier)
    if 'conf' in scn:
        style = conf_style('%s/%s' % (prop, seed))
        if style:
            scn['conf']['style'] = style
    return scn
