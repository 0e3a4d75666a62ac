"""Seeded search over many simulated runs, shrinking, replay and evidence."""

import collections
import hashlib
import json
import os
import pickle
import resource
import select
import signal
import sys
import time
import traceback

from . import profiles, findings

TIERS = {'quick': dict(wall=60.0, factor=1.0),
         'thorough': dict(wall=600.0, factor=40.0)}

# number of runs of the quick tier, by property (default, cost based)
RUNS = {'P21': 6000, 'P07': 5000, 'P13': 2500, 'P18': 3500}
DEFAULT_RUNS = 10000
MIX = 0.2               # share of runs taken from the other profiles

REAL = ("paf/server.py paf/sd.py paf/eventloop.py paf/timer.py paf/proto.py "
        "paf/filter.py paf/props.py paf/conf.py paf/daemon.py paf/logging.py "
        "paf/xcm.py, loaded unmodified from /repo for every process")
REAL_CLIENT = ("paf/client.py (with proto, xcm, eventloop helpers) in its own "
               "simulated process")
REAL_SHELL = "app/pafc with its two threads and the standard module cmd"
STUB = ("libxcm and the network below it (sim/net.py: connections, queues, "
        "latency, loss of peers, errors), epoll/poll/pipe/signals/descriptors "
        "(sim/net.py), wall and monotonic clock, random (sim/loader.py), "
        "syslog/console output (dropped)")
STUB_SHELL = ("threading (threads are simulated, one runs at a time), the "
              "terminal (command lines in, text out), the domains directory")


class Outcome:
    """What one run tells the parent (picklable)."""
    __slots__ = ('idx', 'code', 'tags', 'text', 'now', 'error', 'stats',
                 'probes', 'trace_hash', 'turn_states', 'result', 'events',
                 'wall', 'ops', 'profile', 'inter_hash', 'crash_text')


def trace_hash(run):
    h = hashlib.blake2b(digest_size=12)
    for rec in run.sim.trace:
        h.update(repr(rec).encode())
    v = run.sim.violation
    if v is not None:
        h.update(repr((v.code, v.text, round(v.now, 9))).encode())
    return h.hexdigest()


def interleaving_hash(run):
    """Order of the observable events, without their times."""
    h = hashlib.blake2b(digest_size=8)
    for rec in run.sim.trace:
        h.update(repr(rec[1:3]).encode())
    return h.digest()


def run_scenario(scn, hang_cpu_s=10.0):
    kind = scn.get('kind')
    if kind is None:
        from .scenario import execute
    else:
        import importlib
        execute = importlib.import_module('sim.' + kind).execute
    return execute(scn, hang_cpu_s)


def outcome(idx, scn, run):
    o = Outcome()
    sim = run.sim
    o.idx = idx
    v = sim.violation
    o.code = o.tags = o.text = None
    if v is not None:
        o.code, o.tags, o.text = v.code, v.tags, v.text
    o.error = None
    if sim.error is not None:
        e = sim.error
        o.error = ''.join(traceback.format_exception(
            type(e), e, e.__traceback__)) \
            if isinstance(e, BaseException) else str(e)
    o.now = sim.now
    o.stats = dict(sim.stats)
    o.probes = dict(sim.probes)
    o.trace_hash = trace_hash(run)
    o.inter_hash = interleaving_hash(run)
    o.turn_states = set()
    for srv in getattr(run, 'servers', ()):
        o.turn_states |= srv.oracle.turn_states
    o.result = run.result
    o.events = sim.events
    o.wall = 0.0
    o.ops = len(scn.get('ops', ()))
    o.profile = scn.get('profile') or scn['property']
    o.crash_text = getattr(sim, 'crash_text', None)
    return o


# ---------------------------------------------------------------------------
# which scenarios a check runs

def mixable(prop):
    skip = {'P13', 'P18', 'P14', 'P16', 'P19', 'P21'}
    return [p for p in sorted(profiles.PROFILES)
            if p != prop and p not in skip]


P14_SERVER = ('P03', 'P09', 'P11', 'P20', 'P10', 'P17', 'P01')


def make_scenario(prop, seed, n, tier):
    """The n-th scenario of a check."""
    others = mixable(prop)
    k = int(1 / MIX)
    if prop == 'P14' and n % 3 == 2:
        # the whole server, under the workloads with the most timers
        src = P14_SERVER[(n // 3) % len(P14_SERVER)]
        scn = profiles.make(src, "%s/%d" % (seed, n), tier)
        scn['profile'] = src
        scn['property'] = src
        return scn
    if prop not in ('P14', 'P16', 'P19', 'P21') and n % k == k - 1 and others:
        src = others[(n // k) % len(others)]
        scn = profiles.make(src, "%s/%d" % (seed, n), tier)
        scn['profile'] = src
        scn['property'] = src
        return scn
    scn = profiles.make(prop, "%s/%d" % (seed, n), tier)
    scn['profile'] = prop
    return scn


# ---------------------------------------------------------------------------
# single runs in a child process (used by shrinking, replay and probes)

def run_isolated(scn, hang_cpu_s=10.0, timeout=120):
    """Run in a forked child.  Returns an Outcome, or None if it died."""
    r, w = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            limit_memory()
            run = run_scenario(scn, hang_cpu_s)
            data = pickle.dumps(outcome(0, scn, run))
            with os.fdopen(w, 'wb') as f:
                f.write(data)
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    end = time.time() + timeout
    while True:
        left = end - time.time()
        if left <= 0:
            os.kill(pid, signal.SIGKILL)
            break
        rl, _, _ = select.select([r], [], [], left)
        if rl:
            b = os.read(r, 1 << 20)
            if not b:
                break
            chunks.append(b)
    os.close(r)
    os.waitpid(pid, 0)
    try:
        return pickle.loads(b''.join(chunks))
    except Exception:
        return None


def limit_memory():
    try:
        lim = 3 << 30
        resource.setrlimit(resource.RLIMIT_AS, (lim, lim))
    except (ValueError, OSError):
        pass


# ---------------------------------------------------------------------------
# relevance

def relevant(prop, o):
    return o.code is not None and prop in o.tags


def differential(prop, scn, o):
    """For properties which say that something has no influence: does the
    violation need it?"""
    if prop == 'P17':
        doms = scn['conf']['domains']
        if len(doms) < 2 or scn.get('kind'):
            return False
        for i, d in enumerate(doms):
            one = only_domain(scn, d)
            r = run_isolated(one, 4.0)
            if r is not None and r.code == o.code:
                return False
        return True
    if prop == 'P20':
        if scn.get('kind') or \
           not any(op[1] == 'jump' for op in scn['ops']):
            return False
        one = dict(scn, ops=[op for op in scn['ops'] if op[1] != 'jump'])
        r = run_isolated(one, 4.0)
        return r is not None and r.code != o.code
    return False


def only_domain(scn, d):
    names = {op[2] for op in scn['ops'] if op[1] == 'connect' and
             op[3] in d['sockets']}
    conn_ops = ('connect', 'send', 'raw', 'close', 'stall', 'part', 'rst',
                'fault')
    ops = [op for op in scn['ops']
           if (op[1] not in conn_ops or op[2] in names) and
           not (op[1] == 'faultacc' and op[2] not in d['sockets'])]
    return dict(scn, ops=ops, conf=dict(scn['conf'], domains=[d]))


# ---------------------------------------------------------------------------
# workers

class Worker:
    def __init__(self, pid, cmd_w, res_r):
        self.pid = pid
        self.cmd_w = cmd_w
        self.res_r = res_r
        self.buf = b''
        self.current = []


def worker_main(prop, seed, tier, cmd_r, res_w, diff):
    limit_memory()
    signal.signal(signal.SIGINT, signal.SIG_DFL)
    inp = os.fdopen(cmd_r, 'rb')
    while True:
        line = inp.readline()
        if not line:
            os._exit(0)
        for n in json.loads(line):
            t = time.time()
            try:
                scn = make_scenario(prop, seed, n, tier)
                run = run_scenario(scn)
                o = outcome(n, scn, run)
                if diff and o.code is not None and prop not in o.tags and \
                   o.result != 'hang' and differential(prop, scn, o):
                    o.tags = tuple(sorted(set(o.tags) | {prop}))
            except MemoryError:
                o = Outcome()
                for k in Outcome.__slots__:
                    setattr(o, k, None)
                o.idx, o.error, o.result = n, "out of memory", 'ok'
            except BaseException:
                o = Outcome()
                for k in Outcome.__slots__:
                    setattr(o, k, None)
                o.idx, o.error, o.result = n, traceback.format_exc(), 'ok'
            o.wall = time.time() - t
            data = pickle.dumps(o)
            os.write(res_w, len(data).to_bytes(4, 'big'))
            mv = memoryview(data)
            while mv:
                k = os.write(res_w, mv)
                mv = mv[k:]
            if o.result == 'hang':
                os._exit(3)


class Pool:
    def __init__(self, prop, seed, tier, jobs, diff):
        self.args = (prop, seed, tier)
        self.diff = diff
        self.jobs = jobs
        self.workers = []

    def spawn(self):
        cr, cw = os.pipe()
        rr, rw = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        pid = os.fork()
        if pid == 0:
            try:
                for w in self.workers:
                    os.close(w.cmd_w)
                    os.close(w.res_r)
                os.close(cw)
                os.close(rr)
                worker_main(*self.args, cr, rw, self.diff)
            finally:
                os._exit(9)
        os.close(cr)
        os.close(rw)
        w = Worker(pid, cw, rr)
        self.workers.append(w)
        return w

    def give(self, w, batch):
        w.current = list(batch)
        os.write(w.cmd_w, json.dumps(batch).encode() + b'\n')

    def drop(self, w, kill=True):
        self.workers.remove(w)
        os.close(w.cmd_w)
        os.close(w.res_r)
        if kill:
            try:
                os.kill(w.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
        os.waitpid(w.pid, 0)

    def run(self, indices, wall, on_outcome, stop):
        """Feed all the indices; returns how many were not run."""
        it = iter(indices)
        deadline = time.time() + wall
        lost = []
        done_feeding = False
        batch = 4

        def feed(w):
            nonlocal done_feeding
            if done_feeding or stop() or time.time() > deadline:
                done_feeding = True
                return False
            b = []
            for n in it:
                b.append(n)
                if len(b) >= batch:
                    break
            if not b:
                done_feeding = True
                return False
            self.give(w, b)
            return True

        for _ in range(self.jobs):
            feed(self.spawn())
        while any(w.current for w in self.workers):
            fds = {w.res_r: w for w in self.workers if w.current}
            rl, _, _ = select.select(list(fds), [], [], 5.0)
            hard = time.time() > deadline + 120
            for w in list(fds.values()):
                if w.res_r not in rl:
                    if hard:
                        lost.append((w.current[0], 'run does not end'))
                        self.drop(w)
                    continue
                b = os.read(w.res_r, 1 << 20)
                if not b:
                    hang = w.hung if hasattr(w, 'hung') else False
                    if w.current and not hang:
                        lost.append((w.current[0], 'worker died'))
                    rest = w.current if hang else w.current[1:]
                    self.drop(w, kill=False)
                    if rest and not stop() and time.time() < deadline:
                        self.give(self.spawn(), rest)
                    elif not done_feeding:
                        feed(self.spawn())
                    continue
                w.buf += b
                while len(w.buf) >= 4:
                    n = int.from_bytes(w.buf[:4], 'big')
                    if len(w.buf) < 4 + n:
                        break
                    o = pickle.loads(w.buf[4:4 + n])
                    w.buf = w.buf[4 + n:]
                    w.current.remove(o.idx)
                    if o.result == 'hang':
                        w.hung = True
                    on_outcome(o)
                if not w.current and not getattr(w, 'hung', False):
                    feed(w)
        for w in list(self.workers):
            self.drop(w)
        return lost


# ---------------------------------------------------------------------------
# shrinking

def shrink(prop, scn, first, budget_s):
    """Delta debugging over the operations of the scenario."""
    end = time.time() + budget_s
    want = first.code
    hang_s = 3.0 if first.result == 'hang' else 10.0
    tries = [0]

    def fails(s):
        tries[0] += 1
        o = run_isolated(s, hang_s, 60)
        if o is None or o.error is not None or o.code != want:
            return None
        if want == 'crash' and last_line(o) != last_line(first):
            return None
        if prop in o.tags or differential(prop, s, o):
            return o
        return None

    best, best_o = scn, first

    def attempt(s):
        nonlocal best, best_o
        o = fails(s)
        if o is not None:
            best, best_o = s, o
            return True
        return False

    # nothing after the violation matters
    cut = [op for op in best['ops'] if op[0] <= first.now + 1e-9]
    if len(cut) < len(best['ops']):
        attempt(dict(best, ops=cut))
    n = 2
    while time.time() < end and len(best['ops']) > 1:
        ops = best['ops']
        size = max(1, len(ops) // n)
        reduced = False
        i = 0
        while i < len(best['ops']) and time.time() < end:
            ops = best['ops']
            s = dict(best, ops=ops[:i] + ops[i + size:])
            if s['ops'] and attempt(s):
                reduced = True
            else:
                i += size
        if size == 1 and not reduced:
            break
        if not reduced or size > 1:
            n = min(len(best['ops']), n * 2)
    # simplify single operations
    for i, op in enumerate(list(best['ops'])):
        if time.time() > end:
            break
        if op[1] == 'send' and len(op) > 4:
            for k in range(len(op) - 1, 2, -1):
                cur = best['ops'][i]
                if len(cur) > 4:
                    attempt(dict(best, ops=best['ops'][:i] +
                                 [cur[:k] + cur[k + 1:]] +
                                 best['ops'][i + 1:]))
        elif op[1] == 'connect' and op[4]:
            for k in sorted(op[4]):
                if k in ('remote', 'ski'):
                    continue
                cur = best['ops'][i]
                o4 = {a: b for a, b in cur[4].items() if a != k}
                attempt(dict(best, ops=best['ops'][:i] +
                             [cur[:4] + [o4]] + best['ops'][i + 1:]))
    # a calmer schedule
    if best.get('sched') and time.time() < end:
        if not attempt(dict(best, sched={})):
            for k in sorted(best['sched']):
                if time.time() > end:
                    break
                attempt(dict(best, sched={a: b for a, b in
                                          best['sched'].items() if a != k}))
    return best, best_o, tries[0]


def last_line(o):
    return (o.text or '').split(':')[0:2]


def write_replay(here, prop, scn, o, info):
    d = os.path.join(here, 'out', 'replay')
    os.makedirs(d, exist_ok=True)
    doc = {'format': 'paf-sim-1', 'property': prop, 'scenario': scn,
           'expect': {'code': o.code, 'text': o.text, 'time': o.now,
                      'tags': list(o.tags), 'trace_hash': o.trace_hash,
                      'result': o.result},
           'info': info}
    path = os.path.join(d, "%s-%s.json" % (prop, hashlib.sha1(
        json.dumps(scn, sort_keys=True).encode()).hexdigest()[:12]))
    with open(path, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    return path


def replay(path, verbose=True):
    with open(path) as f:
        doc = json.load(f)
    run = run_scenario(doc['scenario'])
    o = outcome(0, doc['scenario'], run)
    exp = doc['expect']
    prop = doc['property']
    if verbose:
        for rec in run.sim.trace[-60:]:
            print('  ', *rec)
    if o.error:
        print(o.error)
        return 2
    if o.code is None:
        print("no violation: property %s holds on this schedule" % prop)
        return 0
    print("t=%.6f [%s] %s" % (run.sim.violation.now, o.code, o.text))
    if o.crash_text:
        print(o.crash_text)
    same = o.code == exp['code'] and (
        exp['result'] == 'hang' or o.trace_hash == exp['trace_hash'])
    print("identical to the recorded execution: %s" %
          ("yes" if same else "no"))
    print("VIOLATION property=%s replay=%s" % (prop, path))
    sys.stdout.flush()
    return 1 if same else 3


# ---------------------------------------------------------------------------
# one check

def check(prop, tier, here):
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    jobs = int(os.environ.get('VERIF_JOBS', '0') or 0) or \
        max(1, min(16, os.cpu_count() or 4))
    conf = TIERS[tier]
    runs = int(RUNS.get(prop, DEFAULT_RUNS) * conf['factor'])
    runs = int(os.environ.get('VERIF_RUNS', runs))
    wall = float(os.environ.get('VERIF_WALL', conf['wall']))
    agg = Aggregate(prop)
    pool = Pool(prop, seed, tier, jobs, prop in ('P17', 'P20'))
    hits = []

    def on_outcome(o):
        agg.add(o)
        if relevant(prop, o):
            hits.append(o)

    known, finding_hits = findings.probe(prop, run_isolated, here,
                                         write_replay)
    for line in known:
        print(line)
    lost = pool.run(range(runs), wall, on_outcome, lambda: bool(hits))
    status = 0
    replay_path = None
    nviol = 0
    unrepro = 0
    hits.sort(key=lambda o: o.idx)
    for o in finding_hits:
        # a finding whose symptom changed, or that is fixed on paper only
        print("VIOLATION property=%s replay=%s" % (prop, o))
        status, nviol = 1, nviol + 1
    for o in hits[:3]:
        scn = make_scenario(prop, seed, o.idx, tier)
        scn['property'] = scn.get('property')
        first = run_isolated(scn)
        if first is None or first.code != o.code:
            unrepro += 1
            continue
        if prop not in first.tags:
            first.tags = tuple(sorted(set(first.tags) | {prop}))
        small, so, tries = shrink(prop, scn, first,
                                  25.0 if tier == 'quick' else 120.0)
        path = write_replay(here, prop, small, so, {
            'verif_seed': seed, 'run': o.idx, 'profile': o.profile,
            'ops_before_shrinking': len(scn.get('ops', ())),
            'ops': len(small.get('ops', ())), 'shrink_runs': tries})
        replay_path = path
        print("t=%.6f [%s] %s" % (so.now, so.code, so.text))
        if so.crash_text:
            print(so.crash_text)
        print("run %d of seed %d (profile %s), shrunk from %d to %d "
              "operations" % (o.idx, seed, o.profile,
                              len(scn.get('ops', ())),
                              len(small.get('ops', ()))))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        status, nviol = 1, nviol + 1
        break
    det = None
    if status == 0:
        det = determinism_sample(prop, seed, tier, agg)
    write_evidence(prop, tier, seed, agg, here, t0, nviol, known, det,
                   jobs, lost, unrepro, runs)
    if status == 0:
        problems = []
        if agg.errors:
            problems.append("harness errors in %d runs, first:\n%s" %
                            (len(agg.errors), agg.errors[0][1]))
        if lost:
            problems.append("lost runs: %s" % lost[:3])
        if unrepro and not status:
            problems.append("%d violations could not be reproduced" % unrepro)
        if agg.n == 0:
            problems.append("nothing was run")
        if problems:
            print("CHECK-ERROR property=%s" % prop)
            for p in problems:
                print(p)
            status = 2
    print("%s %s: %d runs, %.0f s simulated, %d ops, %.1f s; other "
          "properties' violations seen: %s" %
          (prop, tier, agg.n, agg.sim_time, agg.ops, time.time() - t0,
           dict(agg.others) or 'none'))
    sys.stdout.flush()
    return status


def determinism_sample(prop, seed, tier, agg):
    """Some runs again, in another process: same trace?"""
    res = {'rerun': 0, 'identical': 0}
    for n, h in sorted(agg.hashes.items())[:4]:
        o = run_isolated(make_scenario(prop, seed, n, tier))
        if o is None or o.error:
            continue
        res['rerun'] += 1
        res['identical'] += o.trace_hash == h
    return res


class Aggregate:
    def __init__(self, prop):
        self.prop = prop
        self.n = 0
        self.sim_time = 0.0
        self.cpu = 0.0
        self.ops = 0
        self.events = 0
        self.stats = collections.Counter()
        self.probes = collections.Counter()
        self.others = collections.Counter()
        self.traces = set()
        self.inter = set()
        self.states = set()
        self.nontrivial = set()
        self.errors = []
        self.hashes = {}
        self.profiles = collections.Counter()
        self.samples = []

    def add(self, o):
        self.n += 1
        self.cpu += o.wall or 0
        if o.error is not None:
            self.errors.append((o.idx, o.error))
            return
        self.sim_time += o.now
        self.ops += o.ops
        self.events += o.events
        self.stats.update(o.stats)
        self.probes.update(o.probes)
        self.traces.add(o.trace_hash)
        self.inter.add(o.inter_hash)
        self.states |= o.turn_states
        self.profiles[o.profile] += 1
        if o.ops and (o.stats or o.probes):
            self.nontrivial.add(o.inter_hash)
        if len(self.hashes) < 16:
            self.hashes[o.idx] = o.trace_hash
        if o.code is not None and self.prop not in o.tags:
            self.others['%s(%s)' % (o.code, ','.join(o.tags))] += 1
        if len(self.samples) < 3:
            self.samples.append(o.idx)


def write_evidence(prop, tier, seed, agg, here, t0, nviol, known, det, jobs,
                   lost, unrepro, planned):
    wall = time.time() - t0
    rate = agg.n / wall * 3600 if wall else 0
    samples = []
    for n in agg.samples:
        try:
            s = make_scenario(prop, seed, n, tier)
        except Exception as e:
            samples.append({'run': n, 'error': repr(e)})
            continue
        samples.append({'run': n, 'seed': s['seed'], 'conf': s.get('conf'),
                        'sched': s.get('sched'),
                        'ops': s.get('ops', [])[:25],
                        'ops_total': len(s.get('ops', []))})
    faults = {k[6:]: v for k, v in sorted(agg.stats.items())
              if k.startswith('fault:')}
    cov = {
        'evaluations': agg.n,
        'distinct_nontrivial': len(agg.nontrivial),
        'rule': "one evaluation is one complete simulated run of a scenario "
                "generated from seed/number by the property's workload "
                "profile (every fifth by another property's); it is "
                "non-trivial if it performed operations and produced "
                "observable protocol activity; runs are distinct if the "
                "sequence of observable events (messages, connects, closes, "
                "sleeps, faults; without their times) differs",
        'samples': samples,
        'planned_runs': planned,
        'runs_per_hour': round(rate),
        'seeds_per_hour': round(rate),
        'simulated_seconds': round(agg.sim_time, 1),
        'simulated_seconds_per_wall_second': round(agg.sim_time / wall, 1)
        if wall else 0,
        'operations': agg.ops,
        'events': agg.events,
        'faults_injected': faults,
        'other_counters': {k: v for k, v in sorted(agg.stats.items())
                           if not k.startswith('fault:')},
        'reached': dict(sorted(agg.probes.items())),
        'distinct_executions': len(agg.traces),
        'distinct_interleavings': len(agg.inter),
        'distinct_quiescent_states': len(agg.states),
        'state_measure': "(services, subscriptions, connected clients) per "
                         "domain whenever the server goes to sleep",
        'runs_by_profile': dict(agg.profiles),
        'determinism': det,
        'other_property_violations': dict(agg.others),
        'harness_errors': len(agg.errors),
        'lost_runs': len(lost),
        'unreproducible': unrepro,
        'workers': jobs,
        'real_components': REAL +
        ('; ' + REAL_CLIENT if prop in ('P16', 'P19', 'P21') else '') +
        ('; ' + REAL_SHELL if prop == 'P21' else ''),
        'stub_components': STUB +
        ('; ' + STUB_SHELL if prop == 'P21' else ''),
        'known_findings': known,
    }
    doc = {'property': prop, 'tier': tier, 'seed': seed,
           'level': 'exploration', 'coverage': cov,
           'assumptions': [
               "the simulated libxcm behaves as the documented one (message "
               "boundaries, order, EAGAIN, readiness, error codes)",
               "code between two system calls runs in zero simulated time "
               "unless a delay is injected",
               "violations outside the explored seeds are not excluded"],
           'wall_s': round(wall, 2), 'violations': nviol}
    d = os.path.join(here, 'evidence')
    os.makedirs(d, exist_ok=True)
    tmp = os.path.join(d, '.%s.tmp' % prop)
    with open(tmp, 'w') as f:
        json.dump(doc, f, indent=1)
        f.write('\n')
    os.replace(tmp, os.path.join(d, prop + '.json'))


# ---------------------------------------------------------------------------

def selftest(runs):
    """Every profile: the same seed in different processes, alone or after
    other runs, must give the same trace."""
    import subprocess
    bad = 0
    props = sorted(profiles.PROFILES)
    me = os.path.join(os.path.dirname(os.path.dirname(
        os.path.abspath(__file__))), 'check.py')
    ref = None
    for how in ('forward', 'backward', 'shuffled'):
        out = subprocess.run([sys.executable, me, 'hashes', str(runs), how],
                             capture_output=True, text=True)
        lines = sorted(out.stdout.splitlines())
        if ref is None:
            ref = lines
        if not lines:
            print(out.stderr)
        if lines != ref or not lines:
            for x in sorted(set(lines) ^ set(ref)):
                bad += 1
                print("%s: %s" % (how, x))
    print("selftest: %d profiles x %d runs, %d differences" %
          (len(props), runs, bad))
    return 1 if bad or not ref else 0


def hashes(runs, how='forward'):
    todo = [(p, n) for p in sorted(profiles.PROFILES) for n in range(runs)]
    if how == 'backward':
        todo.reverse()
    elif how == 'shuffled':
        import random
        random.Random(1).shuffle(todo)
    for p, n in todo:
        scn = profiles.make(p, "9/%d" % n, 'quick')
        o = outcome(n, scn, run_scenario(scn))
        print(p, n, o.trace_hash, o.code, o.error)


def main(argv, here):
    if len(argv) == 2 and argv[0] == 'replay':
        return replay(argv[1])
    if argv and argv[0] == 'selftest':
        return selftest(int(argv[1]) if len(argv) > 1 else 5)
    if argv and argv[0] == 'hashes':
        hashes(int(argv[1]), *argv[2:3])
        return 0
    if argv and argv[0] == 'setup':
        scn = profiles.make('P02', "1/0", 'quick')
        o = run_isolated(scn)
        print("simulator works: %s" % (o is not None and o.error is None))
        return 0
    if len(argv) == 2 and argv[1] in TIERS and argv[0] in profiles.PROFILES:
        return check(argv[0], argv[1], here)
    sys.stderr.write(__doc__)
    return 2
