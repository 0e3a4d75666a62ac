#!/usr/bin/env python3
"""mkseed.py DEFS.py [id ...]: builds /verif/seeded/<id>/ from definitions.

A definition is bug(id, property, edits, needs, breaks, demo); it is kept only
if the demonstration passes without and fails with the change, and the stable
tests pass with it."""
import json, os, shutil, subprocess, sys, tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUGS = []


def bug(id, prop, edits, needs, breaks, demo, kit='kit.py'):
    BUGS.append((id, prop, edits, needs, breaks, demo, kit))


def run(cmd, cwd, timeout=120, **kw):
    return subprocess.run(cmd, cwd=cwd, capture_output=True, text=True,
                          timeout=timeout, **kw)


def main():
    ns = {'bug': bug}
    ns["BUGS"] = BUGS
    exec(compile(open(sys.argv[1]).read(), sys.argv[1], 'exec'), ns)
    want = sys.argv[2:]
    tests = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    for id, prop, edits, needs, breaks, demo, kit in BUGS:
        if want and id not in want:
            continue
        tmp = tempfile.mkdtemp(prefix='seed.')
        repo = os.path.join(tmp, 'repo')
        try:
            subprocess.check_call(['git', 'clone', '-q', '/repo', repo])
            d = os.path.join(tmp, 'out')
            os.mkdir(d)
            if kit:
                shutil.copy(os.path.join(HERE, 'tools', kit),
                            os.path.join(d, kit))
            with open(os.path.join(d, 'demo.py'), 'w') as f:
                f.write(demo.strip() + '\n')
            with open(os.path.join(d, 'demo.sh'), 'w') as f:
                f.write('#!/bin/bash\n'
                        'here="$(cd "$(dirname "$0")" && pwd)"\n'
                        'export PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
                        'export PYTHONPATH="$here"\n'
                        'exec timeout 120 python3 "$here/demo.py"\n')
            os.chmod(os.path.join(d, 'demo.sh'), 0o755)
            clean = run(['bash', d + '/demo.sh'], repo)
            bad = None
            for f, old, new in edits:
                p = os.path.join(repo, f)
                s = open(p).read()
                if s.count(old) != 1:
                    bad = "%s: %d matches of %r" % (f, s.count(old), old)
                    break
                open(p, 'w').write(s.replace(old, new))
            if bad:
                print(id, 'EDIT', bad)
                continue
            patched = run(['bash', d + '/demo.sh'], repo)
            env = dict(os.environ, PYTHONPATH=repo,
                       PYTHONDONTWRITEBYTECODE='1')
            t = run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p',
                     'no:cacheprovider', '--ignore=test_paf.py'],
                    repo + '/test', env=env)
            ok = clean.returncode == 0 and patched.returncode != 0 and \
                '14 passed' in t.stdout and 'failed' not in t.stdout
            last = (patched.stdout + patched.stderr).strip().splitlines()
            why = [x[:200] for x in last if 'Error' in x or 'FAILED' in x][-2:]
            print(id, 'OK' if ok else 'REJECTED', 'clean=%d patched=%d %s' %
                  (clean.returncode, patched.returncode, why))
            if not ok:
                print(clean.stdout[-1500:], clean.stderr[-1500:])
                print(t.stdout[-300:])
                continue
            diff = run(['git', 'diff'], repo).stdout
            open(os.path.join(d, 'patch.diff'), 'w').write(diff)
            json.dump({'property': prop, 'needs': needs,
                       'what_it_breaks': breaks},
                      open(os.path.join(d, 'meta.json'), 'w'), indent=1)
            dst = os.path.join(HERE, 'seeded', id)
            if os.path.exists(dst):
                for n in os.listdir(dst):
                    os.unlink(os.path.join(dst, n))
            else:
                os.makedirs(dst)
            for n in os.listdir(d):
                shutil.copy(os.path.join(d, n), os.path.join(dst, n))
        finally:
            shutil.rmtree(tmp)


main()
