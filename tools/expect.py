"""Writes pyvc/expected.json: per property the obligations discharged on the tree as it is now, and the hash of the text they
were generated from. check.py only uses it to tell an obligation that is newly refuted; the obligations themselves are
generated and discharged afresh on every run.   tools/expect.py [ids]"""
import json, os, sys, subprocess
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, 'pyvc'))
import srchash
VT = '/opt/veriftools/pyvenv/bin/python'
REPO = os.environ.get('PYOWC_REPO', '/repo')
P = os.path.join(HERE, 'pyvc', 'expected.json')
old = json.load(open(P)) if os.path.exists(P) else {}
ids = sys.argv[1:] or sorted(f[:-3].upper() for f in os.listdir(os.path.join(HERE, 'pyvc', 'contracts')) if f[0] == 'c' and f[1].isdigit())


def one(i):
    r = subprocess.run([VT, os.path.join(HERE, 'pyvc', 'main.py'), i], capture_output=True, text=True)
    v = json.loads([l for l in r.stdout.splitlines() if l.startswith('@@')][-1][2:])
    names = {}
    for o in v['obligations']: names.setdefault(o['name'], []).append(o['status'])
    good = sorted(n for n, s in names.items() if all(x == 'proved' for x in s))
    return i, dict(proved=good, open=sorted(set(names) - set(good)), functions=v['functions'], text=srchash.text(REPO, v['functions'])), len(v['obligations'])


with ThreadPoolExecutor(5) as ex:
    for i, d, n in ex.map(one, ids):
        old[i] = d; print(i, n, 'obligations;', len(d['proved']), 'names proved;', 'open:', d['open'])
json.dump(old, open(P, 'w'), indent=1, sort_keys=True)
