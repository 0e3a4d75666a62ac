"""Executable reference model and oracle for one Pathfinder server process.

The oracle watches the server at its transport boundary only: connections
accepted, messages received and sent, ends and errors reported to it,
connections closed, and the calls in which it goes to sleep.  For every
domain it runs a small reference model of the service directory; every
message the server sends must be one the model expects, and whenever the
server goes to sleep nothing that is due may be outstanding.

The only hidden nondeterminism is when, within a turn, an expired orphan is
removed, so the model keeps a (nearly always one-element) set of alternative
states ("branches").
"""

from collections import deque
import errno as E

from . import spec
from .kernel import SimKill

EPS = 2e-3

HARD_BACKLOG = 192        # "about a hundred messages"
SOFT_BACKLOG = 64

# violations about what a client is told, as opposed to when and how fast
CONTENT_CODES = {
    'refused', 'granted', 'fail-reason', 'wrong-content', 'missing-output',
    'unexpected-output', 'spurious-notify', 'notify-type', 'notify-fields',
    'listed-extra', 'listed-wrong', 'incomplete', 'complete-fields',
    'spontaneous-close', 'malformed-output', 'no-accept', 'extra-accept',
    'early-end', 'wrong-command'}

# violations a queue that loses or misorders its content would cause
QUEUE_CODES = {'unexpected-output', 'no-accept', 'extra-accept',
               'wrong-command', 'incomplete', 'notify-type',
               'spurious-notify', 'malformed-output'}


# what a request that ends the connection it arrived on contradicts
ASKED = {'hello': {'P10', 'P11'}, 'publish': {'P04'}, 'unpublish': {'P04'},
         'subscribe': {'P02'}, 'unsubscribe': {'P02'}, 'services': {'P08'},
         'subscriptions': {'P08'}, 'clients': {'P08'}, 'track': {'P09'}}


class Svc:
    __slots__ = ('sid', 'gen', 'props', 'ttl', 'owner', 'user',
                 'orphan_since', 'holder')

    def __init__(self, *a):
        (self.sid, self.gen, self.props, self.ttl, self.owner, self.user,
         self.orphan_since, self.holder) = a

    def but(self, **kw):
        n = Svc(self.sid, self.gen, self.props, self.ttl, self.owner,
                self.user, self.orphan_since, self.holder)
        for k, v in kw.items():
            setattr(n, k, v)
        return n

    def key(self):
        return (self.sid, self.gen, self.props, self.ttl, self.owner,
                self.user, self.orphan_since, self.holder)


class Sub:
    __slots__ = ('sub_id', 'conn', 'cid', 'user', 'ast', 'text', 'ta')

    def __init__(self, *a):
        (self.sub_id, self.conn, self.cid, self.user, self.ast, self.text,
         self.ta) = a

    def matches(self, props):
        return self.ast is None or spec.match(self.ast, props)


class TaExp:
    """Responses still to be sent in one transaction."""
    __slots__ = ('cmd', 'ta', 'accept', 'items', 'term', 'n', 'maybe', 'sid')

    def __init__(self, cmd, ta, accept=False, term=None):
        self.cmd = cmd
        self.ta = ta
        self.accept = accept
        self.items = {}
        self.term = term
        self.n = (1 if accept else 0) + (1 if term else 0)
        self.maybe = False
        self.sid = None

    def add(self, key, item):
        self.items.setdefault(key, deque()).append(item)
        self.n += 1

    def finish(self, term):
        self.term = term
        self.n += 1

    def done(self):
        return self.n == 0

    def clone(self):
        c = TaExp(self.cmd, self.ta)
        c.accept = self.accept
        c.items = {k: deque(v) for k, v in self.items.items()}
        c.term = self.term
        c.n = self.n
        c.maybe = self.maybe
        c.sid = self.sid
        return c


class ConnState:
    """Protocol state of a connection within a branch."""
    __slots__ = ('name', 'cid', 'version', 'user', 'up', 'open', 'track_ta',
                 'exp', 'pending')

    def __init__(self, name):
        self.name = name
        self.cid = None
        self.version = None
        self.user = None
        self.up = False
        self.open = {}         # open transactions: ta -> cmd
        self.track_ta = None
        self.exp = {}          # ta -> deque of TaExp
        self.pending = 0       # messages expected but not sent

    def clone(self):
        c = ConnState(self.name)
        c.cid, c.version, c.user, c.up = \
            self.cid, self.version, self.user, self.up
        c.open = dict(self.open)
        c.track_ta = self.track_ta
        c.exp = {ta: deque(x.clone() for x in q)
                 for ta, q in self.exp.items()}
        c.pending = self.pending
        return c

    def new_ta(self, cmd, ta, **kw):
        t = TaExp(cmd, ta, **kw)
        self.exp.setdefault(ta, deque()).append(t)
        self.pending += t.n
        return t

    def last_ta(self, ta):
        return self.exp[ta][-1]


class Branch:
    def __init__(self):
        self.svcs = {}
        self.subs = {}
        self.conns = {}

    def clone(self):
        b = Branch()
        b.svcs = dict(self.svcs)
        b.subs = dict(self.subs)
        b.conns = {k: v.clone() for k, v in self.conns.items()}
        return b

    def signature(self):
        def cs(c):
            return (c.name, c.cid, c.version, c.user, c.up,
                    sorted(c.open.items()), c.track_ta,
                    sorted((ta, [(t.cmd, t.accept, t.term,
                                  sorted((str(k), list(map(repr, v)))
                                         for k, v in t.items.items() if v))
                                 for t in q])
                           for ta, q in c.exp.items() if q))
        return repr((sorted(s.key() for s in self.svcs.values()),
                     sorted(self.subs), [cs(c) for _, c in
                                         sorted(self.conns.items())]))

    # -- queries ----------------------------------------------------------
    def conn_of_client(self, cid):
        for c in self.conns.values():
            if c.up and c.cid == cid:
                return c
        return None

    def orphans_of(self, cid):
        return [s for s in self.svcs.values()
                if s.owner == cid and s.orphan_since is not None]

    def count_clients(self, user=None):
        return sum(1 for c in self.conns.values()
                   if c.up and (user is None or c.user == user))

    def count_services(self, user=None):
        return sum(1 for s in self.svcs.values()
                   if user is None or s.user == user)

    def count_subs(self, user=None):
        return sum(1 for s in self.subs.values()
                   if user is None or s.user == user)

    def due(self, wall):
        d = [s for s in self.svcs.values() if s.orphan_since is not None and
             s.orphan_since + s.ttl <= wall]
        d.sort(key=lambda s: (s.orphan_since + s.ttl, s.sid))
        return d


class Mismatch(Exception):
    def __init__(self, code, tags, text, sid=None):
        Exception.__init__(self, text)
        self.code = code
        self.tags = tags
        self.sid = sid


class ConnWatch:
    """Branch-independent observations about one accepted connection."""

    def __init__(self, end, wall, now):
        self.end = end
        self.link = end.link
        self.name = end.link.name
        self.accept_wall = wall
        self.accept_now = now
        self.must_close = None       # reason
        self.may_close = None
        self.closed = False
        self.hello_seen = False
        self.outs = 0                # sent in this turn
        self.sent = 0
        self.received = 0
        # idle supervision
        self.active = None           # wall time of last activity
        self.m_lo = self.m_hi = None
        self.warned = None           # first opportunity after 0.6 M
        self.probe = None
        self.probe_query = None
        self.asked = None        # (command, time) of an unanswered request
        self.query_possible = None   # earliest wall time a query may be made
        self.query_out = None        # wall time of the outstanding query
        self.query_last = None
        self.query_floor = None
        self.track_since = None
        self.latency = None          # (lo, hi) or None
        self.jumps = 0
        self.hs_opp = None
        self.was_congested = False
        self.taint = set()
        self.query_epoch = 0
        self.active_jumps = 0
        self.maybe_warned = 0.0
        self.early_replies = 0
        self.broken_setup = False


class Domain:
    scan_floor = 0.0

    def __init__(self, oracle, conf, idx):
        self.o = oracle
        self.sim = oracle.sim
        self.conf = conf
        self.idx = idx
        self.name = conf.get('name')
        self.vmin = conf.get('vmin', 2)
        self.vmax = conf.get('vmax', 3)
        self.idle_min = conf.get('idle_min', 4)
        self.idle_max = conf.get('idle_max', 30)
        limits = oracle.conf.get('limits', {})
        self.user_lim = limits.get('user', {})
        self.total_lim = limits.get('total', {})
        self.branches = [Branch()]
        self.watch = {}              # open connections
        self.listeners = []
        self.taints = {}             # sid -> set of property ids
        self.turn_outs = []
        self.turn_closed = {}
        self.svc_dirty = True
        self.ever_orphan = set()
        self.used = False            # had a client
        self.been_empty = False      # was left by all clients and services
        self.touched = False
        self.zero_polls = 0

    # ------------------------------------------------------------------
    def fail(self, code, tags, text):
        pre = ""
        if len(self.o.domains) > 1:
            pre = "domain %s: " % (self.name or self.idx)
        tags = set(tags)
        if code in CONTENT_CODES:
            tags |= self.o.extra_tags
        if code == 'listed-extra' and self.been_empty:
            tags.add('P18')
        self.sim.violate(code, tags, pre + text)
        raise SimKill()

    def wall(self):
        return self.sim.wall()

    # -- connections ------------------------------------------------------
    def accept(self, end):
        w = ConnWatch(end, self.wall(), self.sim.now)
        w.jumps = self.o.jumps
        self.watch[w.name] = w
        for b in self.branches:
            b.conns[w.name] = ConnState(w.name)
        lim = self.total_lim.get('clients')
        if lim is not None and \
           sum(not w.broken_setup for w in self.watch.values()) > lim:
            self.fail('over-capacity', ['P12', 'P06'],
                      "%d connections accepted, the limit on clients is %d" %
                      (len(self.watch), lim))
        self.sim.probe('accept')

    def rxend(self, w, why):
        if w.must_close is None:
            w.must_close = 'end'
        self.o.progress()

    def txerr(self, w, err):
        if err == E.EMSGSIZE:
            w.may_close = 'emsgsize'
            self.sim.probe('emsgsize')
            return
        if w.must_close is None:
            w.must_close = 'txerr'
        self.o.progress()

    def attrerr(self, w, name):
        # which attribute lookups are fatal is the server's choice
        if w.received == 0:
            w.broken_setup = True
        w.may_close = 'attr'

    def backlog(self, w):
        return min(b.conns[w.name].pending for b in self.branches) - w.outs

    # -- incoming -----------------------------------------------------------
    def incoming(self, w, data):
        self.o.progress()
        w.received += 1
        if w.must_close is not None:
            return
        wall = self.wall()
        bl = self.backlog(w)
        if bl >= HARD_BACKLOG:
            self.fail('backlog', ['P13'],
                      "request received from %s although %d messages are "
                      "queued for it" % (w.name, bl))
        if bl > 0:
            self.sim.probe('receive-with-backlog')
        self.note_warn(w, wall)
        out = []
        split = False
        b0 = self.branches[0]
        c0 = b0.conns[w.name]
        try:
            m = spec.parse_client_message(data, c0.version if c0.up else 2)
        except spec.Bad:
            m = None
        except spec.Gray as g:
            from .kernel import HarnessError
            raise HarnessError("gray message in workload: %s %r" %
                               (g, data[:200]))
        if m is None and not c0.up:
            # a track request before the handshake may be rejected as
            # unknown or answered with no-hello
            try:
                m3 = spec.parse_client_message(data, 3)
                if m3[0] == 'track' and m3[2] == 'request':
                    w.may_close = 'track-before-hello'
                    m = m3
            except (spec.Bad, spec.Gray):
                pass
        elif m is not None and m[0] == 'hello' and m[2] == 'request':
            w.hello_seen = True
        if m is not None and m[2] == 'request' and \
           m[0] in ('hello', 'publish', 'unpublish', 'services', 'subscribe'):
            split = True
        if split:
            for b in self.branches:
                due = b.due(wall)
                out.append(b)
                if due:
                    self.sim.probe('request-races-expiry')
                    groups = []
                    for s in due:
                        e = s.orphan_since + s.ttl
                        if not groups or groups[-1][0] != e:
                            groups.append((e, []))
                        groups[-1][1].append(s.sid)
                    for k in range(1, len(groups) + 1):
                        nb = b.clone()
                        for _, sids in groups[:k]:
                            for sid in sids:
                                self.remove_service(nb, nb.svcs[sid], wall)
                        out.append(nb)
            if len(out) > 200:
                from .kernel import HarnessError
                raise HarnessError("too many branches")
            self.branches = out
        for b in self.branches:
            self.step(b, w, m, data, wall)
        w.asked = None if m is None or w.must_close is not None else \
            (m[0], self.sim.now)
        self.touched = True
        c = self.branches[0].conns[w.name]
        if c.up:
            w.active = wall
            w.active_jumps = self.o.jumps
            w.warned = None
            w.maybe_warned = 0.0
            w.probe = None
            w.m_lo = w.m_hi = None
            self.svc_dirty = True
            self.refresh_m()

    def early_reply(self, w, wall):
        """A track reply although no query has been seen on the wire.

        It's a protocol violation, unless a query was already queued."""
        self.note_warn(w, wall)
        if w.query_possible is None:
            self.violation_in(w, 'unsolicited reply')
            return
        self.sim.probe('reply-crossing-queued-query')
        w.early_replies += 1
        w.may_close = 'early-reply'
        w.latency = (0.0, None if w.jumps != self.o.jumps
                     else max(0.0, wall - w.query_possible))
        w.query_possible = None

    def violation_in(self, w, why):
        if w.must_close is None:
            w.must_close = 'protocol'
            self.sim.probe('protocol-violation')
            self.sim.probe('violation: ' + why)

    def step(self, b, w, m, data, wall):
        c = b.conns[w.name]
        if m is None:
            self.violation_in(w, 'malformed')
            return
        cmd, ta, mtype, f = m
        opened = c.open.get(ta)
        if mtype == 'inform':
            if opened is None:
                self.violation_in(w, 'inform without transaction')
            elif opened != 'track':
                self.violation_in(w, 'inform in one-way transaction')
            elif f['track-type'] == 'query':
                x = c.last_ta(ta)
                x.add('reply', 'reply')
                c.pending += 1
                self.sim.probe('track-client-query')
            else:
                if w.query_out is None:
                    if b is self.branches[0]:
                        self.early_reply(w, wall)
                elif b is self.branches[0]:
                    self.sim.probe('track-reply')
                    lo = wall - w.query_out
                    hi = wall - w.query_floor
                    if w.jumps != self.o.jumps:
                        lo, hi = 0.0, None
                    w.latency = (max(0.0, lo),
                                 None if hi is None else max(0.0, hi))
                    w.query_out = None
                    w.query_possible = None
            return
        if opened is not None:
            self.violation_in(w, 'request in open transaction')
            return
        if cmd == 'hello':
            self.hello(b, w, c, ta, f, wall)
            return
        if not c.up:
            x = c.new_ta(cmd, ta, term=('fail', {'no-hello'}))
            if w.may_close == 'track-before-hello' and cmd == 'track':
                x.maybe = True
            self.sim.probe('no-hello')
            return
        getattr(self, 'do_' + cmd)(b, w, c, ta, f, wall)

    # -- hello ----------------------------------------------------------------
    def user_of(self, w):
        addr = w.link.remote_addr
        if addr.startswith('tls') and w.link.ski is not None and \
           'tls.peer_subject_key_id' not in w.link.attr_faults:
            return 'ski:' + w.link.ski.hex()
        if addr.startswith('tls') or addr.startswith('tcp'):
            return 'ip:' + addr.split(':', 1)[1].rsplit(':', 1)[0]
        return 'local'

    def hello(self, b, w, c, ta, f, wall):
        cid = f['client-id']
        lo = f['protocol-minimum-version']
        hi = f['protocol-maximum-version']
        if c.cid is None:
            c.cid = cid
        elif c.cid != cid:
            self.sim.probe('hello-changed-id')
            c.new_ta('hello', ta, term=('fail', {'permission-denied'}))
            return
        elif c.up:
            self.sim.probe('hello-again')
            c.new_ta('hello', ta, term=('complete',
                                        {'protocol-version': c.version}))
            return
        v = min(hi, self.vmax)
        reasons = set()
        if v < max(lo, self.vmin):
            v = None
            reasons.add('unsupported-protocol-version')
        user = self.user_of(w)
        other = b.conn_of_client(cid)
        exists = False
        if other is not None:
            reasons.add('client-id-exists')
            exists = True
            if other.user != user:
                reasons.add('permission-denied')
                self.taint_client(b, cid, 'P05')
        else:
            orphans = b.orphans_of(cid)
            if orphans and orphans[0].user != user:
                reasons.add('permission-denied')
                for s in orphans:
                    self.taint(s.sid, 'P05')
            if self.limit_hit('clients', b.count_clients(user),
                              b.count_clients()):
                reasons.add('insufficient-resources')
        if reasons:
            self.sim.probe('hello-refused')
            c.new_ta('hello', ta, term=('fail', reasons))
            if exists and v is not None:
                ow = self.watch.get(other.name)
                if ow is not None and ow.probe is None:
                    self.sim.probe('hello-probe')
                    ow.probe = wall
                    ow.probe_seq = self.o.turns
                    if ow.query_possible is None:
                        ow.query_possible = wall
                        ow.jumps = self.o.jumps
            return
        c.up = True
        c.version = v
        c.user = user
        self.sim.probe('hello-ok-v%d' % v)
        if b.orphans_of(cid):
            self.sim.probe('client-returned-to-orphans')
        c.new_ta('hello', ta, term=('complete', {'protocol-version': v}))

    def limit_hit(self, what, used_user, used_total):
        u = self.user_lim.get(what)
        t = self.total_lim.get(what)
        hit = (u is not None and used_user >= u) or \
            (t is not None and used_total >= t)
        if hit:
            self.sim.probe('limit-hit-' + what)
        return hit

    # -- services ---------------------------------------------------------------
    def taint(self, sid, pid):
        self.taints.setdefault(sid, set()).add(pid)

    def taint_client(self, b, cid, pid):
        for s in b.svcs.values():
            if s.owner == cid:
                self.taint(s.sid, pid)
        for s in b.subs.values():
            if s.cid == cid:
                self.taint(('sub', s.sub_id), pid)

    def notify_subs(self, b, old, new, wall):
        for sub in b.subs.values():
            before = old is not None and sub.matches(old.props)
            after = new is not None and sub.matches(new.props)
            if before and after:
                kind = 'modified'
            elif after:
                kind = 'appeared'
            elif before:
                kind = 'disappeared'
            else:
                continue
            self.queue_notify(b, sub, kind, new if new is not None else old)

    def queue_notify(self, b, sub, kind, s):
        c = b.conns[sub.conn]
        x = c.last_ta(sub.ta)
        if kind == 'disappeared':
            item = (kind, None)
        else:
            item = (kind, (s.gen, s.props, s.ttl, s.owner, s.orphan_since))
        x.add(s.sid, item)
        c.pending += 1
        self.sim.probe('notify-' + kind)

    def change_service(self, b, old, new, wall):
        if new is None:
            del b.svcs[old.sid]
        else:
            b.svcs[new.sid] = new
        self.notify_subs(b, old, new, wall)
        self.svc_dirty = True

    def remove_service(self, b, s, wall):
        self.sim.probe('orphan-expired')
        self.change_service(b, s, None, wall)

    def do_publish(self, b, w, c, ta, f, wall):
        sid, gen, ttl = f['service-id'], f['generation'], f['ttl']
        props = spec.props_key(f['service-props'])
        s = b.svcs.get(sid)
        reasons = set()
        if s is None:
            if self.limit_hit('services', b.count_services(c.user),
                              b.count_services()):
                reasons.add('insufficient-resources')
                self.taint(sid, 'P06')
        else:
            if s.user != c.user:
                reasons.add('permission-denied')
                self.taint(sid, 'P05')
            if gen == s.gen and (props != s.props or ttl != s.ttl):
                reasons.add('same-generation-but-different')
                self.taint(sid, 'P04')
            if gen < s.gen:
                reasons.add('old-generation')
                self.taint(sid, 'P04')
        if reasons:
            self.sim.probe('publish-refused')
            x = c.new_ta('publish', ta, term=('fail', reasons))
            x.sid = sid
            return
        x = c.new_ta('publish', ta, term=('complete', {}))
        x.sid = sid
        if s is None:
            self.sim.probe('publish-new')
            n = Svc(sid, gen, props, ttl, c.cid, c.user, None, w.name)
            self.change_service(b, None, n, wall)
        elif gen > s.gen or s.owner != c.cid or s.orphan_since is not None:
            if s.orphan_since is not None:
                self.sim.probe('orphan-reclaimed')
                if s.owner == c.cid:
                    self.sim.probe('orphan-reclaimed-by-owner')
            elif s.owner != c.cid:
                self.sim.probe('takeover')
                self.taint(sid, 'P18')
            n = s.but(gen=gen, props=props, ttl=ttl, owner=c.cid,
                      orphan_since=None, holder=w.name)
            self.change_service(b, s, n, wall)
        else:
            self.sim.probe('republish-identical')

    def do_unpublish(self, b, w, c, ta, f, wall):
        sid = f['service-id']
        s = b.svcs.get(sid)
        if s is None:
            x = c.new_ta('unpublish', ta,
                         term=('fail', {'non-existent-service-id'}))
            x.sid = sid
            return
        if s.user != c.user:
            self.taint(sid, 'P05')
            self.sim.probe('unpublish-denied')
            x = c.new_ta('unpublish', ta,
                         term=('fail', {'permission-denied'}))
            x.sid = sid
            return
        x = c.new_ta('unpublish', ta, term=('complete', {}))
        x.sid = sid
        self.sim.probe('unpublish')
        if s.owner != c.cid or s.orphan_since is not None:
            self.sim.probe('unpublish-of-foreign-or-orphan')
            n = s.but(owner=c.cid, orphan_since=None, holder=w.name)
            self.change_service(b, s, n, wall)
            s = n
        self.change_service(b, s, None, wall)

    # -- subscriptions ------------------------------------------------------------
    def do_subscribe(self, b, w, c, ta, f, wall):
        sub_id = f['subscription-id']
        reasons = set()
        ast = None
        if 'filter' in f:
            r = spec.parse_filter_lenient(f['filter'])
            if r[0] == 'gray':
                from .kernel import HarnessError
                raise HarnessError("gray filter %r" % f['filter'])
            if r[0] == 'bad':
                reasons.add('invalid-filter-syntax')
            else:
                ast = r[1]
        if sub_id in b.subs:
            reasons.add('subscription-id-exists')
            if b.subs[sub_id].user != c.user:
                self.taint(('sub', sub_id), 'P05')
        if self.limit_hit('subscriptions', b.count_subs(c.user),
                          b.count_subs()):
            reasons.add('insufficient-resources')
        if reasons:
            self.sim.probe('subscribe-refused')
            c.new_ta('subscribe', ta, term=('fail', reasons))
            return
        c.new_ta('subscribe', ta, accept=True)
        c.open[ta] = 'subscribe'
        sub = Sub(sub_id, w.name, c.cid, c.user, ast, f.get('filter'), ta)
        b.subs[sub_id] = sub
        self.sim.probe('subscribe')
        for s in b.svcs.values():
            if sub.matches(s.props):
                self.queue_notify(b, sub, 'appeared', s)

    def do_unsubscribe(self, b, w, c, ta, f, wall):
        sub_id = f['subscription-id']
        sub = b.subs.get(sub_id)
        if sub is None:
            c.new_ta('unsubscribe', ta,
                     term=('fail', {'non-existent-subscription-id'}))
            return
        if sub.cid != c.cid:
            self.taint(('sub', sub_id), 'P05')
            self.sim.probe('unsubscribe-denied')
            c.new_ta('unsubscribe', ta, term=('fail', {'permission-denied'}))
            return
        self.sim.probe('unsubscribe')
        del b.subs[sub_id]
        x = c.last_ta(sub.ta)
        x.finish(('complete', {}))
        c.pending += 1
        del c.open[sub.ta]
        c.new_ta('unsubscribe', ta, term=('complete', {}))

    # -- listings -------------------------------------------------------------------
    def do_subscriptions(self, b, w, c, ta, f, wall):
        x = c.new_ta('subscriptions', ta, accept=True,
                     term=('complete', {}))
        for s in b.subs.values():
            x.add(s.sub_id, (s.cid, s.ast))
            c.pending += 1

    def do_services(self, b, w, c, ta, f, wall):
        ast = None
        if 'filter' in f:
            r = spec.parse_filter_lenient(f['filter'])
            if r[0] == 'gray':
                from .kernel import HarnessError
                raise HarnessError("gray filter %r" % f['filter'])
            if r[0] == 'bad':
                c.new_ta('services', ta,
                         term=('fail', {'invalid-filter-syntax'}))
                return
            ast = r[1]
        x = c.new_ta('services', ta, accept=True, term=('complete', {}))
        for s in b.svcs.values():
            if ast is None or spec.match(ast, s.props):
                x.add(s.sid, (s.gen, s.props, s.ttl, s.owner, s.orphan_since))
                c.pending += 1

    def do_clients(self, b, w, c, ta, f, wall):
        x = c.new_ta('clients', ta, accept=True, term=('complete', {}))
        for o in b.conns.values():
            if not o.up:
                continue
            ow = self.watch.get(o.name)
            if ow is None:
                continue
            # the request itself counts as activity of the requester
            last = wall if o.name == w.name else ow.active
            if last is None:
                last = wall
            idle = max(0.0, wall - last)
            x.add(o.cid, (ow.link.remote_addr, ow.accept_wall, idle,
                          o.version, ow.latency if o.track_ta is not None
                          else None, c.version, ow.active_jumps != self.o.jumps))
            c.pending += 1

    def do_ping(self, b, w, c, ta, f, wall):
        c.new_ta('ping', ta, term=('complete', {}))

    def do_track(self, b, w, c, ta, f, wall):
        if c.track_ta is not None:
            self.sim.probe('track-exists')
            c.new_ta('track', ta, term=('fail', {'track-exists'}))
            return
        self.sim.probe('track')
        c.track_ta = ta
        c.open[ta] = 'track'
        c.new_ta('track', ta, accept=True)

    # -- outgoing ---------------------------------------------------------------------
    def outgoing(self, w, data):
        self.o.progress()
        w.outs += 1
        w.sent += 1
        w.asked = None
        self.touched = True
        c = self.branches[0].conns.get(w.name)
        version = c.version if c is not None and c.up else 3
        try:
            m = spec.parse_server_message(data, version)
        except (spec.Bad, spec.Gray) as e:
            tags = ['P07']
            if b'"idle": -' in data or b'"latency": -' in data:
                tags = ['P20', 'P08']
            elif b'"clients"' in data or b'"services"' in data:
                tags.append('P08')
            self.fail('malformed-output', tags, "malformed message to %s: %s:"
                      " %r" % (w.name, e, data[:300]))
        if w.must_close == 'protocol' and w.closed:
            self.fail('out-after-close', ['P07'], "message after close")
        cmd, ta, mtype, f = m
        if cmd == 'track' and mtype == 'notify' and \
           f['track-type'] == 'query':
            # spontaneous: not part of the model's expectations
            w.outs -= 1
            self.track_query(w, c, ta)
            return
        self.turn_outs.append((w, m))

    def track_query(self, w, c, ta):
        wall = self.wall()
        if c is None or not c.up or c.track_ta != ta:
            self.fail('bad-query', ['P09', 'P07'],
                      "track query to %s in a transaction that is not its "
                      "track transaction" % w.name)
        if w.early_replies > 0:
            # the (queued) query the early reply was an answer to
            w.early_replies -= 1
            if w.early_replies == 0 and w.may_close == 'early-reply':
                w.may_close = None
            return
        if w.query_out is not None:
            self.fail('second-query', ['P09'],
                      "second outstanding track query to %s" % w.name)
        self.note_warn(w, wall)
        if w.query_possible is None:
            self.fail('early-query', ['P09'],
                      "track query to %s %.3f s after its last activity, max "
                      "idle time is %.1f s" %
                      (w.name, wall - w.active, w.m_lo))
        for x in c.exp.get(ta, ()):
            if x.accept:
                self.turn_outs_query_check(w, ta)
        self.sim.probe('track-server-query')
        w.query_out = wall
        w.query_last = wall
        w.query_floor = w.query_possible
        w.query_epoch += 1

    def turn_outs_query_check(self, w, ta):
        for ow, m in self.turn_outs:
            if ow is w and m[1] == ta and m[2] == 'accept':
                return
        self.fail('query-before-accept', ['P07', 'P09'],
                  "track query to %s before the accept of its track "
                  "transaction" % w.name)

    def match_out(self, b, w, m):
        cmd, ta, mtype, f = m
        c = b.conns.get(w.name)
        if c is None:
            c = self.turn_closed.get((id(b), w.name))
        what = "%s %s (ta %d) to %s %s" % (cmd, mtype, ta, w.name,
                                           {k: v for k, v in f.items()})
        base = {'track': ['P09', 'P07'], 'hello': ['P11'],
                'subscribe': ['P02', 'P07'], 'services': ['P08'],
                'clients': ['P08'], 'subscriptions': ['P08'],
                'publish': ['P04'], 'unpublish': ['P04']}.get(cmd, []) + ['P07']
        q = c.exp.get(ta) if c is not None else None
        while q and q[0].done() and (len(q) > 1 or q[0].term is not None):
            if len(q) == 1 and ta in c.open:
                break
            q.popleft()
        if not q or (q[0].done()):
            tags = base
            if cmd == 'subscribe' and mtype == 'notify':
                tags = ['P02'] + sorted(
                    self.taints.get(f.get('service-id'), ()))
                if f.get('service-id') in self.ever_orphan:
                    tags.append('P03')
            raise Mismatch('unexpected-output', tags,
                           "unexpected message: " + what,
                           f.get('service-id'))
        x = q[0]
        if x.cmd != cmd:
            raise Mismatch('wrong-command', ['P07'],
                           "message of command %s in a %s transaction: %s" %
                           (cmd, x.cmd, what))
        if x.accept:
            if mtype == 'accept':
                x.accept = False
                x.n -= 1
                c.pending -= 1
                return
            if mtype == 'fail':
                tags = self.fail_tags(cmd, {f.get('fail-reason')}, x)
                raise Mismatch('refused', tags,
                               "request refused that should be accepted: " +
                               what)
            raise Mismatch('no-accept', base, "accept missing before: " + what)
        if mtype == 'accept':
            raise Mismatch('extra-accept', base, "unexpected: " + what)
        if mtype == 'notify':
            self.match_notify(b, c, x, cmd, f, what, base)
            return
        # terminal
        left = [(k, list(v)) for k, v in x.items.items() if v]
        if x.term is None:
            raise Mismatch('early-end', base,
                           "transaction ended by server: " + what)
        kind, want = x.term
        if mtype != kind:
            if kind == 'fail':
                tags = self.fail_tags(cmd, want, x)
                raise Mismatch('granted', tags,
                               "expected failure %s, got: %s" %
                               (sorted(want), what), x.sid)
            tags = self.fail_tags(cmd, {f.get('fail-reason')}, x)
            raise Mismatch('refused', tags,
                           "expected success, got: " + what, x.sid)
        if kind == 'fail':
            if f.get('fail-reason') not in want:
                raise Mismatch('fail-reason',
                               self.fail_tags(cmd, want |
                                              {f.get('fail-reason')}, x),
                               "expected failure %s, got: %s" %
                               (sorted(want), what), x.sid)
        elif want != f:
            raise Mismatch('complete-fields', base,
                           "expected %s, got: %s" % (want, what))
        if left:
            tags = list(base)
            for k, v in left:
                tags += sorted(self.taints.get(k, ()))
            raise Mismatch('incomplete', tags,
                           "complete although notifications are missing for "
                           "%s: %s" % ([k for k, _ in left], what))
        x.term = None
        x.n -= 1
        c.pending -= 1
        q.popleft()
        if not q:
            c.exp.pop(ta, None)

    def fail_tags(self, cmd, reasons, x):
        tags = set()
        if 'permission-denied' in reasons:
            tags.add('P05')
        if 'insufficient-resources' in reasons:
            tags.add('P06')
        if self.been_empty and reasons & {
                'permission-denied', 'insufficient-resources',
                'client-id-exists', 'subscription-id-exists'}:
            tags.add('P18')          # (something was left behind)
        if 'client-id-exists' in reasons:
            tags.add('P10')
        if 'no-hello' in reasons or \
           'unsupported-protocol-version' in reasons:
            tags.add('P11')
        if cmd in ('publish', 'unpublish') and 'no-hello' not in reasons:
            tags.add('P04')
        if cmd == 'hello':
            tags.add('P11')
            tags.add('P10')
        if 'non-existent-service-id' in reasons or \
           'old-generation' in reasons or \
           'same-generation-but-different' in reasons:
            tags.add('P04')
        if 'invalid-filter-syntax' in reasons or \
           'subscription-id-exists' in reasons or \
           'non-existent-subscription-id' in reasons or \
           'track-exists' in reasons:
            tags.add('P07')
            if cmd in ('subscribe', 'unsubscribe'):
                tags.add('P02')
        if x.sid is not None:
            tags |= self.taints.get(x.sid, set())
            if x.sid in self.ever_orphan:
                tags.add('P03')
        if not tags:
            tags.add('P07')
        return sorted(tags)

    def match_notify(self, b, c, x, cmd, f, what, base):
        if cmd == 'track':
            q = x.items.get('reply')
            if f['track-type'] != 'reply' or not q:
                raise Mismatch('bad-track-notify', ['P09', 'P07'],
                               "unexpected: " + what)
            q.popleft()
        elif cmd == 'subscribe':
            sid = f['service-id']
            q = x.items.get(sid)
            tags = ['P02'] + sorted(self.taints.get(sid, ()))
            if sid in self.ever_orphan:
                tags.append('P03')
            if not q:
                raise Mismatch('spurious-notify', tags,
                               "unexpected notification: " + what, sid)
            kind, cont = q[0]
            if f['match-type'] != kind:
                raise Mismatch('notify-type', tags,
                               "expected %s %s, got: %s" %
                               (kind, cont, what), sid)
            if kind == 'disappeared':
                if len(f) != 2:
                    raise Mismatch('notify-fields', ['P02', 'P07'],
                                   "extra fields: " + what)
            else:
                self.match_content(f, cont, tags + ['P04'], what,
                                   'notification')
            q.popleft()
        elif cmd == 'services':
            sid = f['service-id']
            q = x.items.get(sid)
            tags = ['P08'] + sorted(self.taints.get(sid, ()))
            if not q:
                if sid in self.ever_orphan or sid not in b.svcs:
                    tags.append('P03')
                raise Mismatch('listed-extra', tags,
                               "listing contains a service it should not: " +
                               what, sid)
            self.match_content(f, q[0], tags + ['P04'], what, 'listing')
            q.popleft()
        elif cmd == 'subscriptions':
            q = x.items.get(f['subscription-id'])
            if not q:
                raise Mismatch('listed-extra', ['P08'],
                               "unexpected: " + what)
            cid, ast = q[0]
            ok = f['client-id'] == cid
            if ast is None:
                ok = ok and 'filter' not in f
            else:
                ok = ok and 'filter' in f and \
                    spec.parse_filter_lenient(f['filter']) == ('ok', ast)
            if not ok:
                raise Mismatch('listed-wrong', ['P08'],
                               "expected client %s filter %s: %s" %
                               (cid, ast, what))
            q.popleft()
        elif cmd == 'clients':
            q = x.items.get(f['client-id'])
            if not q:
                raise Mismatch('listed-extra', ['P08', 'P10'],
                               "unexpected: " + what)
            addr, acc, idle, ver, lat, asker, jumped = q[0]
            bad = None
            if f['client-address'] != addr:
                bad = 'address'
            if abs(f['time'] - acc) > 1.01:
                bad = 'time'
            if asker >= 3:
                if f['protocol-version'] != ver:
                    bad = 'version'
                if ver >= 3:
                    if abs(f['idle'] - idle) > 0.002:
                        bad = 'idle (expected %.3f)' % idle
                elif f['idle'] < -0.001 or \
                        (f['idle'] > idle + 0.002 and not jumped):
                    bad = 'idle (expected at most %.3f)' % idle
                if lat is None:
                    if 'latency' in f:
                        bad = 'latency (none expected)'
                elif 'latency' not in f:
                    bad = 'latency missing'
                elif f['latency'] < lat[0] - 0.002 or \
                        (lat[1] is not None and
                         f['latency'] > lat[1] + 0.002):
                    bad = 'latency (expected %s)' % (lat,)
            if bad:
                tags = ['P08']
                if 'latency' in bad or 'idle' in bad:
                    tags += ['P20', 'P09']
                raise Mismatch('listed-wrong', tags, "%s wrong: %s" %
                               (bad, what))
            q.popleft()
        x.n -= 1
        c.pending -= 1

    def match_content(self, f, cont, tags, what, kind):
        gen, props, ttl, owner, since = cont
        bad = None
        if not {'generation', 'service-props', 'ttl', 'client-id'} <= set(f):
            tags = tags + ['P07']
        if f.get('generation') != gen:
            bad = 'generation (expected %d)' % gen
        elif 'service-props' not in f or \
                spec.props_key(f['service-props']) != props or \
                not spec.props_wire_exact(f['service-props']):
            bad = 'properties (expected %s)' % (props,)
        elif f.get('ttl') != ttl:
            bad = 'TTL (expected %d)' % ttl
        elif f.get('client-id') != owner:
            bad = 'owner (expected %d)' % owner
            tags = tags + ['P05']
        elif since is None:
            if 'orphan-since' in f:
                bad = 'orphan-since (none expected)'
                tags = tags + ['P03']
        elif 'orphan-since' not in f:
            bad = 'orphan-since missing'
            tags = tags + ['P03']
        elif abs(f['orphan-since'] - since) > 0.002:
            bad = 'orphan-since (expected %.3f)' % since
            tags = tags + ['P03']
        if bad:
            raise Mismatch('wrong-content', tags, "%s has wrong %s: %s" %
                           (kind, bad, what), f.get('service-id'))

    # -- closing ----------------------------------------------------------------
    def closed(self, w):
        wall = self.wall()
        self.o.progress()
        w.closed = True
        self.touched = True
        if not self.o.shutdown and w.must_close is None:
            self.check_close_reason(w, wall)
        if w.must_close == 'protocol':
            self.sim.probe('closed-on-violation')
        del self.watch[w.name]
        for b in self.branches:
            c = b.conns.pop(w.name)
            self.turn_closed[(id(b), w.name)] = c
            if not c.up:
                continue
            for sub in [s for s in b.subs.values() if s.conn == w.name]:
                del b.subs[sub.sub_id]
            for s in [s for s in b.svcs.values() if s.holder == w.name]:
                self.ever_orphan.add(s.sid)
                self.sim.probe('orphaned')
                self.change_service(b, s, s.but(orphan_since=wall,
                                                holder=None), wall)

    def check_close_reason(self, w, wall):
        c = self.branches[0].conns[w.name]
        if w.may_close in ('attr', 'track-before-hello', 'early-reply'):
            return
        if w.may_close == 'emsgsize':
            self.fail('close-emsgsize', ['P01'],
                      "connection of %s closed because a message for it "
                      "exceeds the transport's message size" % w.name)
        tags = {'P01'}
        if self.o.jumps:
            tags.add('P20')
        if w.was_congested or w.link.congested:
            tags.add('P13')
        if w.asked is not None and w.asked[1] == self.sim.now:
            # instead of an answer
            tags |= {'P07'} | ASKED.get(w.asked[0], set())
        if c.up:
            if c.version >= 3:
                lo = w.active + 0.9 * w.m_lo
                if w.probe is not None:
                    lo = min(lo, w.probe + 0.45 * w.m_lo)
                if wall >= lo - EPS:
                    self.sim.probe('idle-close')
                    return
                self.fail('early-idle-close', tags | {'P09', 'P10'},
                          "%s closed %.3f s after its last activity, its max "
                          "idle time is %.1f s" %
                          (w.name, wall - w.active, w.m_lo))
            self.fail('spontaneous-close', tags | {'P09'},
                      "version 2 connection %s closed without a reason" %
                      w.name)
        if wall - w.accept_wall >= 2.0 - 1e-6:
            self.sim.probe('unhandshaked-close')
            return
        self.fail('early-unhandshaked-close', tags | {'P11'},
                  "connection %s without hello closed after %.3f s" %
                  (w.name, wall - w.accept_wall))

    # -- idle supervision -------------------------------------------------------
    def refresh_m(self):
        if not self.svc_dirty:
            return
        self.svc_dirty = False
        lowest = {}
        for b in self.branches:
            mine = {}
            for s in b.svcs.values():
                if s.holder is not None:
                    t = mine.get(s.holder)
                    if t is None or s.ttl < t:
                        mine[s.holder] = s.ttl
            for name, w in self.watch.items():
                t = mine.get(name)
                m = self.idle_max if t is None else \
                    min(self.idle_max, max(self.idle_min, t))
                lo, hi = lowest.get(name, (m, m))
                lowest[name] = (min(lo, m), max(hi, m))
        for name, (lo, hi) in lowest.items():
            w = self.watch[name]
            if w.m_lo is None:
                w.m_lo, w.m_hi = lo, hi
            else:
                w.m_lo = min(w.m_lo, lo)
                w.m_hi = max(w.m_hi, hi)

    def stepped_back(self, wall):
        """The clock was `wall` until now, maybe in the midst of a turn."""
        self.refresh_m()
        for w in self.watch.values():
            if w.active is None or w.m_lo is None:
                continue
            self.note_warn(w, wall)
            if w.warned is None and wall >= w.active + 0.4 * w.m_lo - EPS:
                w.maybe_warned = max(w.maybe_warned, wall)

    def note_warn(self, w, wall):
        """Has the server possibly decided to query the client by now?"""
        if w.active is None or w.query_possible is not None or \
           w.m_lo is None:
            return
        t = w.active + 0.4 * w.m_lo
        if wall >= t - EPS:
            w.query_possible = t
            w.jumps = self.o.jumps

    # -- end of a turn ------------------------------------------------------------
    def end_turn(self, timeout, quiescent):
        wall = self.wall()
        force = timeout != 0
        if not self.touched and not quiescent and not force:
            return
        # 1. expiries
        variants = []
        for b in self.branches:
            due = b.due(wall)
            if not due:
                variants.append(b)
                continue
            if not force:
                variants.append(b)
                nb = b.clone()
                for k, c in list(self.turn_closed.items()):
                    if k[0] == id(b):
                        self.turn_closed[(id(nb), k[1])] = c.clone()
            else:
                nb = b
            for s in due:
                self.remove_service(nb, nb.svcs[s.sid], wall)
            variants.append(nb)
        # 2. explain everything that was sent
        if self.turn_outs:
            good, first = [], None
            for b in variants:
                try:
                    for i, (w, m) in enumerate(self.turn_outs):
                        self.match_out(b, w, m)
                    good.append(b)
                except Mismatch as e:
                    if first is None or i > first[0]:
                        first = (i, e, w)
            if not good:
                self.raise_mismatch(first[1], first[2])
            variants = good
        if len(variants) > 1:
            seen = {}
            for b in variants:
                seen.setdefault(b.signature(), b)
            variants = list(seen.values())
            if len(variants) > 1:
                self.sim.probe('ambiguous-state')
        self.branches = variants
        for w in self.watch.values():
            w.outs = 0
        self.turn_outs = []
        self.turn_closed = {}
        self.touched = False
        if quiescent:
            self.prune_silent()
        if self.watch:
            self.used = True
        elif self.used and not any(b.svcs for b in self.branches):
            self.been_empty = True
        self.refresh_m()
        # 3. deadlines
        if force:
            self.deadlines(wall, timeout)
        if quiescent:
            self.quiescent(wall, timeout)

    def prune_silent(self):
        """The server sleeps: of several possible states those can be ruled
        out which would have made it send something more."""
        if len(self.branches) < 2:
            return
        ready = [n for n, w in self.watch.items() if w.link.can_send(0)]
        good = []
        for b in self.branches:
            if not any(not x.done() and not x.maybe for n in ready
                       if n in b.conns and b.conns[n].pending
                       for q in b.conns[n].exp.values() for x in q):
                good.append(b)
        if good:
            self.branches = good

    def raise_mismatch(self, e, w):
        tags = set(e.tags)
        if e.code in QUEUE_CODES and (w.was_congested or w.link.congested or
                                      w.link.eagain_p):
            tags.add('P13')
        self.fail(e.code, tags, str(e))

    def sleep_until(self, wall, timeout):
        return None if timeout < 0 else wall + timeout

    def check_sleep(self, wall, timeout, deadline, tags, what):
        if timeout < 0 or wall + timeout > deadline + EPS:
            if deadline - wall > 2.0e6:
                return            # beyond the longest possible epoll timeout
            self.fail('oversleep', tags,
                      "server goes to sleep %s although %s is due in %.3f s" %
                      ("forever" if timeout < 0 else "for %.3f s" % timeout,
                       what, deadline - wall))

    def deadlines(self, wall, timeout):
        good, worst = [], None
        for b in self.branches:
            first = min((s.orphan_since + s.ttl, s.sid)
                        for s in b.svcs.values()
                        if s.orphan_since is not None) \
                if any(s.orphan_since is not None
                       for s in b.svcs.values()) else None
            if first is None or (timeout >= 0 and
                                 wall + timeout <= first[0] + EPS) or \
               first[0] - wall > 2.0e6:
                good.append(b)
            elif worst is None:
                worst = first
        if good:
            self.branches = good
        else:
            self.check_sleep(wall, timeout, worst[0],
                             ['P03', 'P14', 'P20'] if self.o.jumps
                             else ['P03', 'P14'],
                             "the expiry of service %d" % worst[1])
        b0 = self.branches[0]
        for w in list(self.watch.values()):
            c = b0.conns[w.name]
            if w.must_close is not None:
                if w.must_close == 'protocol':
                    tags = ['P07', 'P01', 'P11'] if not c.up \
                        else ['P07', 'P01']
                else:
                    tags = ['P12', 'P03', 'P10']
                w.must_turns = getattr(w, 'must_turns', 0) + 1
                if w.must_turns > 2:
                    self.fail('not-closed', tags,
                              "connection %s still open after %s" %
                              (w.name, {'protocol': "a protocol violation",
                                        'end': "its end was reported",
                                        'txerr': "a send error"}
                               [w.must_close]))
                continue
            if c.up:
                if c.version >= 3:
                    self.idle_deadlines(w, c, wall, timeout)
            elif not w.hello_seen:
                t = w.accept_wall + 2.0
                if w.hs_opp is None and wall >= t:
                    w.hs_opp = wall
                if w.hs_opp is None:
                    limit = t + 1.05
                else:
                    limit = w.hs_opp + 1.05
                limit = max(limit, self.scan_floor)
                if w.hs_opp is not None and wall >= limit:
                    self.fail('unhandshaked-open', ['P11'],
                              "connection %s without hello still open after "
                              "%.3f s" % (w.name, wall - w.accept_wall))
                if w.may_close is None:
                    self.check_sleep(wall, timeout, limit, ['P11', 'P14'],
                                     "the drop of unhandshaked connection %s"
                                     % w.name)

    def idle_deadlines(self, w, c, wall, timeout):
        self.note_warn(w, wall)
        m = w.m_hi
        t1 = w.active + 0.6 * m
        if w.warned is None and wall >= t1:
            w.warned = wall
            w.warn_query_epoch = w.query_epoch
        if w.warned is None:
            # (a warning to an untracked client is not visible)
            limit = t1 + 0.55 * m
            sleep_limit = t1
            if wall >= w.active + 0.4 * w.m_lo - EPS:
                sleep_limit = max(t1, wall + 0.55 * m)
        else:
            limit = w.warned + 0.55 * m
            sleep_limit = limit
        if w.probe is not None:
            if w.active_jumps == self.o.jumps:
                limit = min(limit, w.probe + 0.55 * m)
            else:       # (a probe doesn't hasten a timeout pending already)
                limit = max(limit, w.probe + 0.55 * m)
            sleep_limit = limit
        if w.maybe_warned:
            limit = max(limit, w.maybe_warned + 0.55 * m)
            sleep_limit = max(sleep_limit, limit)
        tags = ['P09', 'P10']
        if self.o.jumps:
            tags = tags + ['P20']
        if w.warned is not None or w.probe is not None:
            if wall >= limit + EPS:
                self.fail('idle-open', tags,
                          "silent connection %s still open %.3f s after its "
                          "last activity, its max idle time is %.1f s" %
                          (w.name, wall - w.active, m))
        self.check_sleep(wall, timeout, sleep_limit, tags + ['P14'],
                         "idle supervision of %s" % w.name)

    def quiescent(self, wall, timeout):
        """The server sleeps and no descriptor of it is ready."""
        for w in list(self.watch.values()):
            if w.must_close is not None:
                self.fail('not-closed', ['P12', 'P07', 'P01']
                          if w.must_close == 'protocol' else
                          ['P12', 'P03', 'P10'],
                          "server sleeps with connection %s open after %s" %
                          (w.name, w.must_close))
            link = w.link
            pend = min(b.conns[w.name].pending for b in self.branches)
            if link.can_receive(0) and pend < SOFT_BACKLOG:
                self.fail('stuck-input', ['P13', 'P01', 'P12', 'P07'],
                          "server sleeps although %s is readable (%d "
                          "messages, end %s) and only %d messages are queued "
                          "for it" % (w.name, len(link.rx[0]),
                                      link.rx_end[0], pend))
            if pend >= SOFT_BACKLOG:
                w.was_congested = True
                self.sim.probe('backlog-over-soft-limit')
            if pend > 0 and link.can_send(0):
                names = []
                sids = set()
                for b in self.branches[:1]:
                    for q in b.conns[w.name].exp.values():
                        for x in q:
                            if not x.done() and not x.maybe:
                                names.append("%s(ta %d)" % (x.cmd, x.ta))
                                for k, v in x.items.items():
                                    if v:
                                        sids.add(k)
                                if x.sid is not None:
                                    sids.add(x.sid)
                if names:
                    self.missing_output(w, b, names, sids)
            if w.early_replies > 0 and link.can_send(0):
                self.fail('not-closed', ['P07', 'P09'],
                          "server sleeps with connection %s open after an "
                          "unsolicited track reply" % w.name)
            # liveness queries that must have been sent by now
            b0 = self.branches[0]
            c = b0.conns[w.name]
            if c.up and c.version >= 3 and c.track_ta is not None and \
               w.query_out is None and link.can_send(0):
                if w.warned is not None and w.warned >= w.active:
                    self.fail('no-query', ['P09'],
                              "tracked client %s silent for %.3f s (max idle "
                              "time %.1f s) has not been sent a query" %
                              (w.name, wall - w.active, w.m_hi))
                if w.probe is not None:
                    self.fail('no-probe', ['P10', 'P09'],
                              "no liveness query to %s after another hello "
                              "with its client id" % w.name)
        lim = self.total_lim.get('clients')
        if lim is None or len(self.watch) < lim:
            for lst in self.listeners:
                if lst.backlog and not lst.closed:
                    self.fail('stuck-accept', ['P12'],
                              "server sleeps with %d connections waiting on "
                              "%s; %d accepted, limit %s" %
                              (len(lst.backlog), lst.addr, len(self.watch),
                               lim))
        elif any(lst.backlog for lst in self.listeners):
            self.sim.probe('waiting-at-capacity')

    def missing_output(self, w, b, names, sids):
        tags = {'P07'}
        c = b.conns[w.name]
        for q in c.exp.values():
            for x in q:
                if x.done() or x.maybe:
                    continue
                if x.cmd == 'subscribe':
                    if x.accept or (x.term is not None):
                        tags.add('P07')
                    else:
                        tags.discard('P07') if len(names) == 1 else None
                    tags.add('P02')
                    for k, v in x.items.items():
                        if v and any(i[0] == 'disappeared' for i in v):
                            if k in self.ever_orphan:
                                tags.add('P03')
                        if v and any(i[1] is not None and i[1][4] is not None
                                     for i in v):
                            tags.add('P03')
                if x.cmd == 'track':
                    tags.add('P09')
                if x.cmd in ('services', 'clients', 'subscriptions'):
                    tags.add('P08')
                if x.cmd == 'hello':
                    tags |= {'P11', 'P10'}
                if x.cmd in ('publish', 'unpublish'):
                    tags.add('P04')
        for s in sids:
            tags |= self.taints.get(s, set())
        if w.was_congested or w.link.congested or w.link.eagain_p:
            tags.add('P13')
        self.fail('missing-output', tags,
                  "server sleeps although %s can be sent to and is owed: %s "
                  "(services %s)" % (w.name, ", ".join(names),
                                     sorted(map(str, sids))))

    # -- end of run ------------------------------------------------------------
    def summary(self):
        b = self.branches[0]
        return (len(b.svcs), len(b.subs), b.count_clients())


ConnWatch.probe_seq = 0


class Oracle:
    """Observer of one server process."""

    def __init__(self, sim, net, conf):
        self.sim = sim
        self.net = net
        self.conf = conf
        self.domains = [Domain(self, d, i)
                        for i, d in enumerate(conf['domains'])]
        self.by_addr = {}
        for d in self.domains:
            for a in d.conf['sockets']:
                self.by_addr[a] = d
        self.jumps = 0
        self.shutdown = False
        self.shutdown_turns = 0
        self.turns = 0
        self.idle_turns = 0
        self.zero_polls = 0
        self.extra_tags = set()
        self.started = False
        self.max_open = 0
        self.turn_states = set()

    def progress(self):
        self.idle_turns = 0

    def dom(self, end):
        return self.by_addr[end.link.addr]

    def on_listen(self, proc, lst):
        if lst.addr not in self.by_addr:
            self.sim.violate('listens-elsewhere', ['P12', 'P17'],
                             "server listens on %s, which no domain is "
                             "configured to use" % lst.addr)
            raise SimKill()
        d = self.by_addr[lst.addr]
        cred = d.conf.get('tls', {}).get(lst.addr) or {}
        want = {{'cert': 'tls.cert_file', 'key': 'tls.key_file',
                 'tc': 'tls.tc_file', 'crl': 'tls.crl_file'}[k]: v
                for k, v in cred.items()}
        if 'crl' in cred:
            want['tls.check_crl'] = True
        have = {k: v for k, v in lst.attrs.items() if k.startswith('tls.') and
                (k, v) != ('tls.check_crl', False)}
        if have != want:
            self.sim.violate('wrong-credentials', ['P05', 'P17'],
                             "server socket %s uses the credentials %s, but "
                             "is configured to use %s" % (lst.addr, have,
                                                          want))
            raise SimKill()
        d.listeners.append(lst)

    def check_listening(self):
        for d in self.domains:
            deaf = sorted(set(d.conf['sockets']) -
                          {lst.addr for lst in d.listeners})
            if deaf:
                self.sim.violate('not-listening', ['P12', 'P17'],
                                 "server runs without accepting connections "
                                 "on %s" % ', '.join(deaf))
                raise SimKill()
        self.listening = True

    def on_accept(self, proc, lst, end):
        self.progress()
        self.empty_timeouts = 0
        end.watch = None
        d = self.by_addr[lst.addr]
        d.accept(end)
        end.watch = d.watch[end.link.name]

    def on_in(self, proc, end, data):
        self.sim.log('IN', end.link.name, data)
        self.dom(end).incoming(end.watch, data)

    def on_out(self, proc, end, data):
        self.sim.log('OUT', end.link.name, data)
        self.dom(end).outgoing(end.watch, data)

    def on_rxend(self, proc, end, why):
        self.dom(end).rxend(end.watch, why)

    def on_txerr(self, proc, end, err):
        self.dom(end).txerr(end.watch, err)

    def on_attrerr(self, proc, end, name):
        if end.watch is None:
            return
        if name == 'tls.peer_subject_key_id':
            return
        self.dom(end).attrerr(end.watch, name)

    def on_close(self, proc, handle):
        link = getattr(handle, 'link', None)
        if link is None:
            if not self.shutdown:
                self.closed_listener = handle.addr
            return
        if handle.watch is not None and not handle.watch.closed:
            self.dom(handle).closed(handle.watch)

    def signalled(self):
        self.shutdown = True
        self.progress()

    def jumped(self, d=0.0):
        if d < 0:
            # a scan for silent connections may be pending by the old time
            for dom in self.domains:
                dom.scan_floor = max(dom.scan_floor,
                                     self.sim.wall() - d + 1.05)
                dom.stepped_back(self.sim.wall() - d)
        self.jumps += 1

    def poll_enter(self, proc, timeout, waiter):
        sim = self.sim
        self.started = True
        self.turns += 1
        if self.closed_listener is not None:
            sim.violate('listener-closed', ['P01', 'P12'],
                        "server socket %s closed while the server runs" %
                        self.closed_listener)
            raise SimKill()
        ready = waiter.ready()
        quiescent = timeout != 0 and not ready
        if quiescent and not self.listening and not self.shutdown:
            self.check_listening()
        if self.shutdown:
            self.shutdown_turns += 1
            if quiescent or self.shutdown_turns > 20:
                sim.violate('signal-ignored', ['P15'],
                            "server keeps running after a termination "
                            "signal")
                raise SimKill()
            return
        if timeout == 0:
            if not self.zero_polls:
                self.zero_since = sim.now
            self.zero_polls += 1
            if self.zero_polls > 50 and sim.now > self.zero_since + 2e-3 or \
               self.zero_polls > 2000:
                sim.violate('spin', ['P14'], "server polls with zero timeout "
                            "again and again")
                raise SimKill()
        else:
            self.zero_polls = 0
        self.idle_turns = 0 if quiescent else self.idle_turns + 1
        if self.idle_turns > 60 and not quiescent and timeout != 0 and ready:
            sim.violate('spin', ['P14'],
                        "server keeps waking up for a ready descriptor "
                        "without ever doing anything about it")
            raise SimKill()
        for d in self.domains:
            d.end_turn(timeout, quiescent)
        if quiescent:
            sim.log('SLEEP', round(timeout, 6))
            self.unneeded_wakeups(timeout)
            self.turn_states.add(tuple(d.summary() for d in self.domains))

    closed_listener = None
    listening = False
    empty_timeouts = 0
    empty_due = 0.0

    def unneeded_wakeups(self, timeout):
        """A server with no client and no service has nothing to wake for."""
        if timeout >= 0 and all(not d.watch and not d.branches[0].svcs
                                for d in self.domains):
            # one pending clean-out scan may remain
            due = self.sim.wall() + timeout
            if abs(due - self.empty_due) > 0.05:
                self.empty_due = due
                self.empty_timeouts += 1
            if self.empty_timeouts > 4:
                self.sim.violate(
                    'idle-timer', ['P18', 'P14'],
                    "server without connections and services still has a "
                    "timer (%.3f s)" % timeout)
                raise SimKill()
        else:
            self.empty_timeouts = 0

    def poll_return(self, proc, res):
        pass
