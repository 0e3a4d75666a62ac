#!/usr/bin/env python3
"""runseeds.py [-a] [id ...]: runs the property's check (with -a: all checks)
against each planted bug, in a scratch copy, and prints which catch it."""
import json, os, shutil, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
args = sys.argv[1:]
every = '-a' in args
args = [a for a in args if a != '-a']
man = [c['property'] for c in
       json.load(open(HERE + '/MANIFEST.json'))['checks']]
for id in sorted(os.listdir(HERE + '/seeded')):
    if args and id not in args and not any(
            a.endswith('*') and id.startswith(a[:-1]) for a in args):
        continue
    d = os.path.join(HERE, 'seeded', id)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='seed.')
    try:
        repo = tmp + '/repo'
        subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
        r = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=repo)
        if r.returncode:
            print(id, 'PATCH DOES NOT APPLY')
            continue
        for p in (man if every else [prop]):
            t = time.time()
            r = subprocess.run(
                [sys.executable, HERE + '/check.py', p, 'quick'],
                cwd=HERE, env=dict(os.environ, PAF_REPO=repo),
                capture_output=True, text=True)
            v = [x for x in r.stdout.splitlines() if x.startswith('t=')]
            print(id, p, {0: 'MISSED', 1: 'caught'}.get(r.returncode,
                                                         'ERROR'),
                  '%.0fs' % (time.time() - t), (v or [''])[0][:150],
                  '' if r.returncode == 1 else
                  r.stdout.strip()[-400:] + r.stderr[-300:])
            sys.stdout.flush()
    finally:
        shutil.rmtree(tmp)
