"""Tries planted changes:  plant.py ID...  (default: all of /verif/seeded)

For each: a scratch copy of /repo, the patch, the repository's tests, the demo
with and without the patch, and the check of its property on the copy."""
import json
import multiprocessing as mp
import os
import shutil
import subprocess
import sys
import time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
ROOT = '/tmp/plant'


def sh(cmd, cwd, **env):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1',
             TZ='UTC', **env)
    t = time.time()
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    return p.returncode, p.stdout, time.time() - t


def demo(id, copy):
    d = os.path.join(ROOT, 'demo-' + os.path.basename(copy))
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(os.path.join(V, 'seeded', id), d,
                    ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    r = sh(['bash', os.path.join(d, 'demo.sh')], copy)
    shutil.rmtree(d)
    return r


def run(a):
    id, what = a
    s = os.path.join(V, 'seeded', id)
    prop = json.load(open(os.path.join(s, 'meta.json')))['property']
    copy = os.path.join(ROOT, id)
    shutil.rmtree(copy, ignore_errors=True)
    shutil.copytree('/repo', copy, symlinks=True)
    out = []
    try:
        if 'demo' in what:
            rc, o, t = demo(id, copy)
            out.append('base-demo=%d' % rc)
            if rc:
                out.append(o[-600:])
        rc, o, t = sh(['git', 'apply', os.path.join(s, 'patch.diff')], copy)
        if rc:
            return id, prop, ['APPLY ' + o]
        if 'demo' in what:
            rc, o, t = demo(id, copy)
            out.append('demo=%d' % rc)
            out.append(o.strip().splitlines()[-1][:150] if o.strip() else '')
        if 'tests' in what:
            rc, o, t = sh([PY, '-m', 'pytest', '-q', '-p', 'no:cacheprovider',
                           'pysnobal/tests'], copy)
            out.append('tests: ' + ' '.join(l[:90] for l in o.splitlines() if l.startswith(('FAILED', 'ERROR'))) + (o.strip().splitlines() or ['?'])[-1])
        if 'check' in what:
            ids = [prop] if 'check' == what[-1] else what[-1].split('+')
            for c in ids:
                rc, o, t = sh(['python3', os.path.join(V, 'run.py'), c], copy,
                              VERIF_REPO=copy, VERIF_EVID=copy + '-ev',
                              VERIF_SEED='1', VERIF_TIER='quick')
                v = [l for l in o.splitlines() if l.startswith('VIOLATION')]
                out.append('%s rc=%d %ds %d violations' % (c, rc, t, len(v)))
                if rc not in (0, 1):
                    out.append(o[-500:])
    finally:
        shutil.rmtree(copy, ignore_errors=True)
        shutil.rmtree(copy + '-ev', ignore_errors=True)
    return id, prop, out


def main():
    a = sys.argv[1:]
    n = 1
    what = ['demo', 'tests', 'check']
    ids = []
    for x in a:
        if x.startswith('-j'):
            n = int(x[2:])
        elif x.startswith('--'):
            what = x[2:].split(',')
        else:
            ids.append(x)
    ids = ids or sorted(os.listdir(os.path.join(V, 'seeded')))
    os.makedirs(ROOT, exist_ok=True)
    with mp.Pool(n) as p:
        for id, prop, out in p.imap_unordered(run, [(i, what) for i in ids], 1):
            print('%-28s %s  %s' % (id, prop, ' | '.join(out)), flush=True)


if __name__ == '__main__':
    main()
