"""Known findings: genuine defects which are recorded, not repaired.

Each has an explicit probe scenario that shows the defect.  The probe decides
whether the line is printed; nothing is suppressed in the search itself (the
workloads of the search stay clear of the recorded input)."""

import json


def msg(cmd, ta, **fields):
    m = {'ta-cmd': cmd, 'ta-id': ta, 'msg-type': 'request'}
    m.update({k.replace('_', '-'): v for k, v in fields.items()})
    return m


def oversized():
    """A publish request that just fits in a message, and thereby notifications
    that don't."""
    def hello(cid):
        return msg('hello', 0, client_id=cid, protocol_minimum_version=2,
                   protocol_maximum_version=3)
    pub = msg('publish', 1, service_id=1, generation=1,
              service_props={'k': ['']}, ttl=5)
    pub['service-props']['k'][0] = 'x' * (65535 - len(json.dumps(pub)))
    ops = [[0.0, 'connect', 's.1', 'ux:d0', {}], [0.01, 'send', 's.1',
                                                  hello(1)],
           [0.02, 'send', 's.1', msg('subscribe', 1, subscription_id=1)],
           [0.1, 'connect', 'p.1', 'ux:d0', {}], [0.11, 'send', 'p.1',
                                                  hello(2)],
           [0.2, 'send', 'p.1', pub]]
    return {'property': 'P01', 'profile': 'P01', 'seed': 'finding/oversized',
            'conf': {'domains': [{'sockets': ['ux:d0'], 'idle_min': 4,
                                  'idle_max': 30}], 'limits': {}},
            'sched': {}, 'ops': ops, 'end': {'drain': 1.0}}


# property, name in known-findings.txt, scenario, code of the violation
FINDINGS = [
    ('P01', 'oversized-notification', oversized, 'close-emsgsize',
     "a publish request close to the transport's maximum message size ends "
     "the connection of every subscriber, as the notification exceeds that "
     "size"),
]


def listed(here):
    names = set()
    with open(here + '/known-findings.txt') as f:
        for line in f:
            if line.startswith('known:'):
                names.add(line.split()[2])
    return names


def probe(prop, run, here, write_replay):
    """Lines to print, and replay files of unlisted violations."""
    lines, bad = [], []
    names = listed(here)
    for p, name, make, code, text in FINDINGS:
        if p != prop:
            continue
        scn = make()
        o = run(scn)
        if o is None or o.code is None:
            continue
        if o.code == code and name in names:
            lines.append("KNOWN-FINDING: property=%s %s: %s" %
                         (p, name, text))
        elif prop in o.tags:
            bad.append(write_replay(here, prop, scn, o, {'probe': name}))
    return lines, bad
