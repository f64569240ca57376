#!/usr/bin/env python3
"""Builds and confirms the planted bugs of /verif/seeded (patch.diff, demo.sh, demo.py, meta.json).

  make_seeds.py [id ...]      build + confirm those (default: all that are not there yet)
Each is confirmed in a scratch copy of /repo: applies, builds, stable tests pass, demo exits 0 without and nonzero with it.
"""
import sys, os, json, subprocess, tempfile, shutil, difflib, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__)); V = os.path.dirname(HERE)
STABLE = set(json.load(open('/opt/vp/BASELINE.json'))['stable']) if 'stable' in json.load(open('/opt/vp/BASELINE.json')) else None
PRE = '''import os, sys, tempfile, shutil, math, io, contextlib, warnings
sys.path.insert(0, os.getcwd()); sys.dont_write_bytecode = True
warnings.simplefilter('ignore')
import numpy as np
np.seterr(all='ignore')
import scipy.interpolate as _si
class _I2:
    def __init__(self, x, y, z, kind='linear'):
        from scipy.interpolate import RegularGridInterpolator as R
        x = np.asarray(x, float).ravel(); y = np.asarray(y, float).ravel(); z = np.asarray(z, float)
        ix, iy = np.argsort(x), np.argsort(y)
        self.f = R((y[iy], x[ix]), z[iy][:, ix], bounds_error=False, fill_value=None)
    def __call__(self, x, y): return self.f(np.array([[float(np.ravel(y)[0]), float(np.ravel(x)[0])]]))
if not hasattr(_si, 'interp2d') or True: _si.interp2d = _I2
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def check(ok, what):
    if not ok:
        print('FAILED:', what); sys.exit(1)
'''


def sh(cmd, **k): return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def build(s):
    d = os.path.join(V, 'seeded', s['id']); os.makedirs(d, exist_ok=True)
    w = tempfile.mkdtemp(prefix='seed_', dir='/tmp')
    try:
        r = os.path.join(w, 'repo'); shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__'))
        for f, old, new in s['edits']:
            p = os.path.join(r, f); t = open(p).read()
            assert t.count(old) == 1, (s['id'], f, 'old text occurs', t.count(old), old)
            open(p, 'w').write(t.replace(old, new))
        diff = sh('git diff', cwd=r).stdout
        assert diff.strip()
        open(os.path.join(d, 'patch.diff'), 'w').write(diff)
        open(os.path.join(d, 'demo.py'), 'w').write(PRE + s['demo'])
        open(os.path.join(d, 'demo.sh'), 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg\nexec /opt/venv/bin/python "$(cd "$(dirname "$0")" && pwd)/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        a = sh(f'bash {d}/demo.sh', cwd='/repo'); b = sh(f'bash {d}/demo.sh', cwd=r)
        out = os.path.join(w, 'o.json')
        # build.sh and test.sh name /repo; run their bodies on the copy
        t = open('/opt/vp/test.sh').read().replace('/repo --exclude', r + ' --exclude').replace('-C /repo', '-C ' + r)
        open(os.path.join(w, 't.sh'), 'w').write(t)
        c = sh(f'bash {w}/t.sh {out}')
        j = json.load(open(out)); base = json.load(open('/opt/vp/BASELINE.json'))
        stable = base.get('stable') or base.get('tests') or base.get('passed')
        bad = [x for x in stable if x not in set(j.get('passed', []))]
        ok = a.returncode == 0 and b.returncode != 0 and not bad
        print(('ok  ' if ok else 'BAD ') + s['id'], 'demo', a.returncode, b.returncode, 'broken tests', bad[:4], (a.stdout + a.stderr)[-300:] if a.returncode else '', '' if b.returncode else 'demo does not fail')
        if not ok: shutil.rmtree(d)
        return ok
    finally:
        shutil.rmtree(w, ignore_errors=True)


if __name__ == '__main__':
    sp = importlib.util.spec_from_file_location('seeds', os.path.join(HERE, 'seeds.py')); m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
    want = sys.argv[1:] or [s['id'] for s in m.SEEDS if not os.path.isdir(os.path.join(V, 'seeded', s['id']))]
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(6) as ex: list(ex.map(build, [s for s in m.SEEDS if s['id'] in want]))
