#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough]

Decides one property on /repo's current tree:
  1. the deductive verifier (pyvc/) translates the functions under contract from /repo's source as it is now and
     discharges every obligation of the contracts that make up the property;
  2. the run-time side (rt/) looks for a failing input on the real code: first the inputs proposed by refuted
     obligations, then a directed, seeded search. It is the replay of counter-models, and the bounded stand-in for
     the functions outside the verifier's reach.
Exit 0: held. Exit 1 with a VIOLATION line: broken. Nothing else is reported as a violation.
"""
import sys, os, json, time, subprocess, argparse, traceback, tempfile, threading
HERE = os.path.dirname(os.path.abspath(__file__))
VENV = '/opt/venv/bin/python'
VT = '/opt/veriftools/pyvenv/bin/python'


def rt(pid, extra, limit):
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    try:
        r = subprocess.run([VENV, os.path.join(HERE, 'rt', 'run.py'), pid.lower()] + extra, env=env, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return dict(error='time limit', cases=0, failed=False)
    for line in reversed(r.stdout.splitlines()):
        if line.startswith('@@'):
            return json.loads(line[2:])
    return dict(error=(r.stderr or r.stdout)[-1500:], cases=0, failed=False, rc=r.returncode)


def search(pid, seed, tier, cap, limit):
    """the directed search, its cases dealt out to several processes; the first failing input ends it"""
    W = max(1, min(7, (os.cpu_count() or 2) - 1))
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MPLBACKEND='Agg', PYTHONHASHSEED='0')
    sys.path.insert(0, os.path.join(HERE, 'rt'))
    ps = [(w, tempfile.TemporaryFile('w+'), tempfile.TemporaryFile('w+')) for w in range(W)]
    ps = [(subprocess.Popen([VENV, os.path.join(HERE, 'rt', 'run.py'), pid.lower(), '--search', '--seed', str(seed), '--tier', tier, '--time', str(cap), '--worker', str(w), '--workers', str(W)], env=env, stdout=o, stderr=e), o, e) for w, o, e in ps]
    t0 = time.time(); res = {}; errs = []
    while len(res) < W and time.time() - t0 < limit:
        for k, (p, o, e) in enumerate(ps):
            if k in res or p.poll() is None: continue
            o.seek(0); r = next((json.loads(l[2:]) for l in reversed(o.read().splitlines()) if l.startswith('@@')), None)
            if r is None:
                e.seek(0); r = dict(cases=0, failed=False); errs.append(e.read()[-1500:] or f'exit {p.returncode}')
            res[k] = r
        if any(r.get('failed') for r in res.values()): break
        time.sleep(.05)
    for p, _, _ in ps:
        if p.poll() is None: p.kill()
        p.wait()
    bad = [r for r in res.values() if r.get('failed')]
    out = dict(bad[0]) if bad else dict(failed=False, message='', input=None)
    for k in ('cases', 'skipped', 'distinct'): out[k] = sum(r.get(k, 0) for r in res.values())
    out['rule'] = next((r['rule'] for r in res.values() if r.get('rule')), '')
    out['samples'] = [x for _, r in sorted(res.items()) for x in r.get('samples', [])][:2]
    if errs: out['error'] = errs[0]
    return out


def verify(pid, tier, limit, extra=()):
    p = os.path.join(HERE, 'pyvc', 'main.py')
    if not os.path.exists(p): return dict(obligations=[], error='no verifier')
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0')
    try:
        r = subprocess.run([VT, p, pid, '--tier', tier, *extra], env=env, capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired as e:
        out = e.stdout.decode() if isinstance(e.stdout, bytes) else (e.stdout or '')
        return dict(obligations=[json.loads(l[2:]) for l in out.splitlines() if l.startswith('%%')], error='time limit')
    for line in reversed(r.stdout.splitlines()):
        if line.startswith('@@'):
            return json.loads(line[2:])
    return dict(obligations=[json.loads(l[2:]) for l in r.stdout.splitlines() if l.startswith('%%')], error=(r.stderr or r.stdout)[-1500:])


def same_text(exp):
    """are the functions under contract the ones the obligations were first discharged on (then a failure now is the prover's)"""
    sys.path.insert(0, os.path.join(HERE, 'pyvc'))
    try:
        import srchash
        return srchash.text(os.environ.get('PYOWC_REPO', '/repo'), exp['functions']) == exp['text']
    except Exception: return None


def findings(pid):
    """defects recorded in known_findings.txt as known (not repaired): printed on every run"""
    out = []
    for l in open(os.path.join(HERE, 'known_findings.txt')):
        if l.startswith(f'known: property={pid} '):
            out.append(dict(what=l.split(' ', 2)[2].strip()))
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-verify', action='store_true')
    a = ap.parse_args()
    pid = a.id.upper(); seed = int(os.environ.get('VERIF_SEED', '1') or 1); t0 = time.time()
    thorough = a.tier == 'thorough'
    man = json.load(open(os.path.join(HERE, 'MANIFEST.json')))
    level = next((c['level'] for c in man['checks'] if c['property'] == pid), 'exploration')
    box = {}
    th = threading.Thread(target=lambda: box.update(s=search(pid, seed, a.tier, 2400 if thorough else 75, 3000 if thorough else 300)))
    th.start()
    v = dict(obligations=[]) if a.no_verify else verify(pid, a.tier, 3600 if thorough else 420)
    obs = v.get('obligations', [])
    rep = os.path.join(HERE, 'evidence', 'replay'); os.makedirs(rep, exist_ok=True)
    hit = None
    # 1. replay of counter-models on the real code
    replays = 0
    cands = [o for o in obs if o.get('status') == 'refuted' and o.get('inputs')]
    for o in cands[:6]:
        f = os.path.join(rep, f'{pid}-model.json')
        json.dump(dict(property=pid, obligation=o['name'], inputs=o['inputs']), open(f, 'w'))
        r = rt(pid, ['--replay', f], 120); replays += r.get('cases', 0)
        if r.get('failed'):
            hit = dict(r, obligation=o['name']); break
    # 2. directed search
    th.join(); s = box.get('s', dict(error='no search', cases=0, failed=False))
    if s.get('failed') and hit is None: hit = s
    refuted = [o for o in obs if o.get('status') == 'refuted']
    n_ok = sum(o.get('status') == 'proved' for o in obs)
    exp = {}
    ex = os.path.join(HERE, 'pyvc', 'expected.json')
    if os.path.exists(ex): exp = json.load(open(ex)).get(pid, {})
    expected = set(exp.get('proved', ()))
    # obligations discharged on the original text, refuted on a changed text, and refuted again with more time
    regressed = []
    lost = [o for o in refuted if o['name'] in expected]
    if lost and hit is None and same_text(exp) is False:
        v2 = verify(pid, 'retry', 3600 if thorough else 330, ['--only', json.dumps(sorted({o['name'] for o in lost}))])
        again = {}
        for o in v2.get('obligations', []): again.setdefault(o['name'], []).append(o['status'])
        regressed = [o for o in lost if 'refuted' in again.get(o['name'], [])]
    for k in findings(pid): print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    bad = hit is not None or bool(regressed)
    cov = dict(obligations=len(obs), discharged=n_ok, refuted=[o['name'] for o in refuted], undecided=[dict(name=o['name'], why=str(o.get('why', ''))[:200]) for o in obs if o.get('status') not in ('proved', 'refuted')][:60],
               functions_under_contract=v.get('functions', []), functions_bounded_only=v.get('bounded', []), backends=v.get('backends', {}), solver_s=round(v.get('solver_s', 0), 2), vacuity=v.get('vacuity', {}),
               checker_cmd=f'cd /verif && {VT} pyvc/main.py {pid}', trusted_base=v.get('trusted', []) or ['see DESIGN.md'],
               counter_models_replayed=replays, not_reproved=sorted(expected - {o['name'] for o in obs if o.get('status') == 'proved'})[:60],
               evaluations=s.get('cases', 0), distinct_nontrivial=s.get('distinct', 0), skipped=s.get('skipped', 0), rule='bounded stand-in / witness search: ' + s.get('rule', '') + '; non-trivial: distinct and inside the quantifier', samples=s.get('samples', []) or ['none'],
               explanation=v.get('summary', 'bounded search on the real code only'))
    if 'error' in s: cov['search_error'] = s['error']
    if 'error' in v: cov['verifier_error'] = str(v['error'])[-800:]
    ev = dict(property=pid, tier='thorough' if thorough else 'quick', seed=seed, level=level, coverage=cov, assumptions=v.get('assumptions', []), wall_s=round(time.time() - t0, 2), violations=int(bad))
    json.dump(ev, open(os.path.join(HERE, 'evidence', pid + '.json'), 'w'), indent=1)
    print(f'{pid}: {n_ok}/{len(obs)} obligations discharged, {len(refuted)} refuted; {s.get("cases", 0)} cases run on the real code ({s.get("skipped", 0)} outside the quantifier), {time.time() - t0:.1f} s')
    if bad:
        f = os.path.join(rep, f'{pid}.json')
        if hit is not None:
            json.dump(dict(property=pid, message=hit['message'], obligation=hit.get('obligation'), input=hit['input'], refuted=[o['name'] for o in refuted], how=f'{VENV} rt/run.py {pid} --replay {f}'), open(f, 'w'), indent=1)
            print(hit['message'][:1500])
            print(f'VIOLATION property={pid} replay={f}')
        else:
            json.dump(dict(property=pid, failed_obligations=regressed, message='obligations that hold on the unchanged tree are refuted'), open(f, 'w'), indent=1, default=str)
            for o in regressed: print('refuted:', o['name'])
            print(f'VIOLATION property={pid} replay={f} no-failing-input-found')
        return 1
    if 'error' in s and not n_ok:
        # the real code could not be run at all and nothing was proved: undecided, say so
        print('UNDECIDED:', s['error'][-600:]); return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
