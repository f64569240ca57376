#!/usr/bin/env python3
"""Runs the check of each planted bug's property against a scratch copy of /repo with the bug applied (PYOWC_REPO).
  try_seeds.py [-j N] [--dir DIR] [id ...]"""
import sys, os, json, subprocess, tempfile, shutil, argparse
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ap = argparse.ArgumentParser(); ap.add_argument('-j', type=int, default=6); ap.add_argument('--dir', default=os.path.join(V, 'seeded')); ap.add_argument('--no-verify', action='store_true'); ap.add_argument('--verify-only', action='store_true'); ap.add_argument('ids', nargs='*')
a = ap.parse_args()


def one(i):
    d = os.path.join(a.dir, i); w = tempfile.mkdtemp(prefix='try_', dir='/tmp')
    try:
        pid = json.load(open(os.path.join(d, 'meta.json')))['property']
        r = os.path.join(w, 'repo'); shutil.copytree('/repo', r, symlinks=True, ignore=shutil.ignore_patterns('__pycache__', '.git'))
        p = subprocess.run(['git', 'apply', os.path.join(d, 'patch.diff')], cwd=r, capture_output=True, text=True)
        if p.returncode: return print('BADPATCH', i, p.stderr[-200:])
        vc = os.path.join(w, 'verif'); shutil.copytree(V, vc, ignore=shutil.ignore_patterns('seeded', '.git', 'evidence', '__pycache__'))
        env = dict(os.environ, PYOWC_REPO=r)
        if a.verify_only:
            c = subprocess.run(['/opt/veriftools/pyvenv/bin/python', vc + '/pyvc/main.py', pid, '--tier', 'quick'], env=env, capture_output=True, text=True)
            l = [x for x in c.stdout.splitlines() if x.startswith('@@')]
            j = json.loads(l[-1][2:]) if l else {}
            obs = j.get('obligations', [])
            return print(i, {s: sum(o['status'] == s for o in obs) for s in ('proved', 'refuted', 'unknown', 'unsupported')}, [o['name'] for o in obs if o['status'] != 'proved'][:5], '' if l else c.stderr[-300:], flush=True)
        c = subprocess.run([sys.executable, vc + '/check.py', pid] + (['--no-verify'] if a.no_verify else []), env=env, capture_output=True, text=True)
        print('caught ' if c.returncode == 1 and 'VIOLATION property=' + pid in c.stdout else f'MISSED({c.returncode})', i, [l for l in c.stdout.splitlines() if l.strip()][-1:] if c.stdout else c.stderr[-300:], flush=True)
    finally:
        shutil.rmtree(w, ignore_errors=True)


ids = a.ids or sorted(os.listdir(a.dir))
with ThreadPoolExecutor(a.j) as ex: list(ex.map(one, ids))
