"""Author planted bugs: seed.py SPEC.py [ID ...]

SPEC.py defines BUGS: a list of dicts {id, property, edits: [(file, old, new)], needs, breaks, demo: python source}.
For each: makes the patch against /repo's HEAD, writes seeded/ID/, builds, runs the stable tests, the demo with and without,
and the property's quick check with the change. Everything in /repo is undone afterwards."""
import json
import os
import subprocess
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
R = '/repo'
DEMO = '''#!/bin/bash
# Exits 0 where the property holds on this input, 1 otherwise.
export PYTHONPATH=/opt/vp/py3/tree PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1
exec /opt/venvpp/bin/python "$(dirname "$0")/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, universal_newlines=True, **kw)


def build():
    return sh('bash /opt/vp/build.sh')


def stable_missing():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    b = json.load(open('/opt/vp/BASELINE.json'))
    o = json.load(open('/tmp/seed_o.json'))
    os.remove('/tmp/seed_o.json')
    return [x for x in b['stable'] if x not in set(o['passed'])]


def main(spec, only):
    ns = {}
    exec(compile(open(spec).read(), spec, 'exec'), ns)
    assert not sh('git -C %s status --porcelain' % R).stdout.strip(), 'repo not clean'
    root = sh('git -C %s rev-list --max-parents=0 HEAD' % R).stdout.split()[0]
    for b in ns['BUGS']:
        if only and b['id'] not in only:
            continue
        out = os.path.join(V, 'seeded', b['id'])
        os.makedirs(out, exist_ok=True)
        try:
            ok = True
            for f, old, new in b['edits']:
                p = os.path.join(R, f)
                s = open(p).read()
                if s.count(old) != 1:
                    print(b['id'], 'edit matches %d times in %s' % (s.count(old), f))
                    ok = False
                    break
                open(p, 'w').write(s.replace(old, new))
            if not ok:
                continue
            diff = sh('git -C %s diff' % R).stdout
            orig = sh('git -C %s show %s:%s' % (R, root, b['edits'][0][0])).stdout.splitlines()
            minus = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
            notes = []
            if not any(l in orig for l in minus if l.strip()):
                notes.append('NO ORIGINAL LINE CHANGED')
            open(out + '/patch.diff', 'w').write(diff)
            open(out + '/demo.sh', 'w').write(DEMO)
            os.chmod(out + '/demo.sh', 0o755)
            open(out + '/demo.py', 'w').write(b['demo'].strip() + '\n')
            json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(out + '/meta.json', 'w'), indent=1)
            r = build()
            if r.returncode:
                notes.append('BUILD FAILS')
            m = stable_missing()
            if m:
                notes.append('TESTS FAIL %s' % m[:3])
            r = sh('bash %s/demo.sh' % out, cwd=R)
            if r.returncode == 0:
                notes.append('DEMO PASSES WITH THE CHANGE')
            else:
                last = r.stdout.strip().splitlines()[-1:]
                notes.append('demo: %s' % last)
            c = sh('./run_check.sh %s quick' % b['property'], cwd=V)
            v = [l for l in c.stdout.splitlines() if l.startswith('VIOLATION')]
            notes.append('CAUGHT' if c.returncode == 1 and v else 'MISSED rc=%d' % c.returncode)
            if c.returncode == 1:
                notes.append([l for l in c.stdout.splitlines() if l and not l.startswith('VIOLATION')][-2:])
        finally:
            sh('git -C %s checkout -- .' % R)
        build()
        r = sh('bash %s/demo.sh' % out, cwd=R)
        if r.returncode:
            notes.append('DEMO FAILS UNCHANGED: %s' % r.stdout[-500:])
        print(b['id'], b['property'], notes, flush=True)


main(sys.argv[1], sys.argv[2:])
