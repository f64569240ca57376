"""pyvc/main.py ID [--tier quick|thorough]: generates and discharges the obligations of one property."""
import sys, os, json, time, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(200000); threading.stack_size(1 << 29)


def main():
    pid = sys.argv[1]; tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else 'quick'
    import importlib, z3
    from con import Con
    import prove as PR
    t0 = time.time()
    c = Con(pid, tier, t0 + {'quick': 380, 'retry': 310}.get(tier, 3000))
    if '--only' in sys.argv: c.only = set(json.loads(sys.argv[sys.argv.index('--only') + 1]))
    dbg = '--debug' in sys.argv
    c.emit = lambda o: print('%%' + json.dumps(o) if not dbg else f"{o['status']:11} {o['secs']:6.2f} {o['name']} | {o['how']} {o['why']} {o.get('inputs', '')}", flush=True)
    try: m = importlib.import_module('contracts.' + pid.lower())
    except ModuleNotFoundError as e:
        if 'contracts' not in str(e): raise
        m = None
    if m: m.obligations(c)
    st = dict(obligations=c.obs, functions=sorted(c.functions), bounded=c.bounded, backends=dict(z3=z3.get_version_string(), z3_queries=PR.STATS['z3_n'], normal_form_queries=PR.STATS['alg_n']),
              solver_s=round(PR.STATS['z3_s'], 2), vacuity=c.vac, trusted=sorted(c.trusted), assumptions=sorted(c.assumptions), total_s=round(time.time() - t0, 1))
    n = len(c.obs); p = sum(o['status'] == 'proved' for o in c.obs)
    st['summary'] = f'{p} of {n} obligations discharged'
    if dbg: st.pop('obligations')
    print('@@' + json.dumps(st), flush=True)


t = threading.Thread(target=main); t.start(); t.join()
