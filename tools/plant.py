"""Builds and verifies the planted bugs of bugs.py into /verif/seeded.  python3 tools/plant.py [--detect] [ids...]"""
import json, os, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
from bugs import BUGS
PY = '/opt/pypyvenv/bin/python'
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1')
SH = '''#!/bin/bash
# Run with cwd = the repository under test; exit 0 when the property holds here.
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
exec /opt/pypyvenv/bin/python -W ignore "$D/demo.py"
'''


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def plant(b, detect):
    id = b['id']
    W = '/tmp/plant_' + id
    shutil.rmtree(W, ignore_errors=True)
    shutil.copytree('/repo', W, symlinks=True)
    msgs = []
    try:
        for f, old, new in b['edits']:
            p = os.path.join(W, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = sh(['git', 'diff'], W).stdout
        orig = set()
        for f in {e[0] for e in b['edits']}:
            orig |= set(sh(['git', 'show', 'b978be0:' + f], W).stdout.splitlines())
        removed = [l[1:] for l in diff.splitlines() if l.startswith('-') and not l.startswith('---')]
        mine = [l for l in removed if l not in orig]
        if mine or not removed:
            msgs.append('NOT ORIGINAL LINES %r' % mine)
        D = os.path.join(V, 'seeded', id)
        shutil.rmtree(D, ignore_errors=True)
        os.makedirs(D)
        open(D + '/patch.diff', 'w').write(diff)
        open(D + '/demo.py', 'w').write(b['demo'].strip() + '\n')
        open(D + '/demo.sh', 'w').write(SH)
        os.chmod(D + '/demo.sh', 0o755)
        json.dump({k: b[k] for k in ('property', 'needs', 'what_it_breaks')}, open(D + '/meta.json', 'w'), indent=1)
        t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--timeout=300', '-o', 'junit_family=xunit2', 'chumpy'], W)
        last = t.stdout.strip().splitlines()[-1]
        if t.returncode != 0:
            msgs.append('TESTS FAIL ' + last)
        g = sh(['bash', D + '/demo.sh'], '/repo', timeout=300)
        if g.returncode != 0:
            msgs.append('DEMO FAILS ON CLEAN TREE ' + g.stdout[-600:])
        p = sh(['bash', D + '/demo.sh'], W, timeout=300)
        if p.returncode == 0:
            msgs.append('DEMO PASSES ON PATCHED TREE ' + p.stdout[-300:])
        out = p.stdout.strip().splitlines()[-1:] if p.stdout.strip() else ''
        det = ''
        if detect and not msgs:
            e = dict(ENV, CHUMPY_REPO=W, VERIF_SEED='1', VERIF_TIER='quick', VERIF_EVIDENCE='/tmp/plant_evid')
            d = subprocess.run(['python3-vt', 'run.py', b['property'], 'quick'], cwd=V, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            viol = [l for l in d.stdout.splitlines() if l.startswith('VIOLATION')]
            det = 'CAUGHT' if d.returncode == 1 and viol else 'MISSED rc=%d' % d.returncode
        if msgs:
            shutil.rmtree(D, ignore_errors=True)
        return id, b['property'], msgs, out, det
    finally:
        shutil.rmtree(W, ignore_errors=True)


if __name__ == '__main__':
    detect = '--detect' in sys.argv
    ids = [a for a in sys.argv[1:] if not a.startswith('--')]
    todo = [b for b in BUGS if not ids or b['id'] in ids]
    if detect:   # the checks use all cores themselves
        for b in todo:
            print(*plant(b, True), flush=True)
    else:
        with ThreadPoolExecutor(6) as ex:
            for r in ex.map(lambda b: plant(b, False), todo):
                print(*r, flush=True)
