"""Planted bugs (development tool, not used by any check).
python3 tools/plant.py FILE [id...]   FILE defines bug(id, prop, edits, needs, breaks, demo, also=()) calls
edits: ((path, old, new), ...). Every bug is made in a scratch copy of /repo: it must apply, import, pass the
stable tests, and its demo must pass without and fail with it. Kept in seeded/<id>/.
neutral(id, edits, props): an edit which keeps the behaviour; the checks must stay quiet."""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/mplconfig')
STABLE = None
SEL = set(sys.argv[2:])
ALL = json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']


def copy():
    d = tempfile.mkdtemp(prefix='plant')
    r = os.path.join(d, 'repo')
    shutil.copytree('/repo', r, symlinks=True)
    return d, r


def stable():
    b = json.load(open('/opt/vp/BASELINE.json'))
    for k in ('stable', 'passed', 'tests', 'stable_passing'):
        if isinstance(b, dict) and isinstance(b.get(k), list):
            return len(b[k])
    return 215


def tests(r):
    p = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', '-q', '-p', 'no:cacheprovider', '--tb=line', '--disable-warnings', '--continue-on-collection-errors',
                        '--basetemp=' + os.path.join(os.path.dirname(r), 'tmp')], cwd=r, env=ENV, capture_output=True, text=True)
    return p.stdout.strip().splitlines()[-1], p.stdout


def edit(r, edits):
    for path, old, new in edits:
        f = os.path.join(r, path)
        s = open(f).read()
        if s.count(old) != 1:
            print('   edit does not apply (%d times):' % s.count(old), path, old[:60])
            return False
        open(f, 'w').write(s.replace(old, new))
    return True


def check(r, prop):
    p = subprocess.run(['timeout', '600', 'python3', '-m', 'sa.run', prop, '--root', r, '--no-evidence'], cwd=HERE, env=ENV, capture_output=True, text=True)
    return p.returncode, [l for l in p.stdout.splitlines() if l.startswith('VIOLATION')], p.stdout + p.stderr


def keep(r, id):
    if os.environ.get('KEEP'):
        shutil.rmtree('/tmp/w/x', ignore_errors=True)
        shutil.copytree(r, '/tmp/w/x', symlinks=True)


def bug(id, prop, edits, needs, breaks, demo, also=()):
    if SEL and id not in SEL:
        return
    d, r = copy()
    try:
        if not edit(r, edits):
            return
        diff = subprocess.run(['git', 'diff'], cwd=r, capture_output=True, text=True).stdout
        line, out = tests(r)
        ok = '4 failed, 215 passed' in line
        dd = os.path.join(d, 'demo')
        os.mkdir(dd)
        open(os.path.join(dd, 'demo.py'), 'w').write(demo)
        open(os.path.join(dd, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig PYTHONPATH="$PWD"\n'
                                                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(dd, 'demo.sh'), 0o755)
        a = subprocess.run(['bash', os.path.join(dd, 'demo.sh')], cwd='/repo', capture_output=True, text=True)
        b = subprocess.run(['bash', os.path.join(dd, 'demo.sh')], cwd=r, capture_output=True, text=True)
        caught = {}
        if a.returncode == 0 and b.returncode != 0 and ok:
            s = os.path.join(HERE, 'seeded', id)
            os.makedirs(s, exist_ok=True)
            open(os.path.join(s, 'patch.diff'), 'w').write(diff)
            shutil.copy(os.path.join(dd, 'demo.py'), s)
            shutil.copy(os.path.join(dd, 'demo.sh'), s)
            json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(s, 'meta.json'), 'w'), indent=1)
            kept = 'kept'
        else:
            kept = 'REJECTED tests %s demo clean %d patched %d %s %s' % (line, a.returncode, b.returncode, a.stderr[-300:], '' if ok else [l for l in out.splitlines() if 'Error' in l][-6:])
        for p in (prop,) + tuple(also):
            rc, v, o = check(r, p)
            caught[p] = 'CAUGHT' if rc == 1 and v else 'missed' if rc == 0 else 'rc=%d %s' % (rc, o[-300:])
        print('%-28s %s %s' % (id, kept, caught), flush=True)
    finally:
        keep(r, id)
        shutil.rmtree(d)


def neutral(id, edits, props=None):
    if SEL and id not in SEL:
        return
    d, r = copy()
    try:
        if not edit(r, edits):
            return
        line, out = tests(r)
        res = []
        for p in props or os.environ.get('NPROPS', '').split() or [c['property'] for c in ALL]:
            rc, v, o = check(r, p)
            if rc != 0:
                res.append((p, rc, v or o[-300:]))
        print('%-28s %s %s' % (id, '' if '4 failed, 215 passed' in line else 'TESTS ' + line, res or 'quiet'), flush=True)
    finally:
        keep(r, id)
        shutil.rmtree(d)


exec(open(sys.argv[1]).read())
