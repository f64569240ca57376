"""Run-time side of a check: directed search for a failing input of one property on the real code, or replay.

  run.py <id> --search --seed S --n N --time T      -> one JSON line: {cases, distinct, failed, message, input, samples}
  run.py <id> --replay FILE                         -> the same for the stored input(s)
"""
import sys, os, json, time, argparse, importlib, hashlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
import numpy as np
import common
from common import Bad, Skip, enc, dec


def one(mod, inp):
    """-> (status, message): ok / skip / bad"""
    try:
        mod.check(dec(enc(inp)))
        return 'ok', ''
    except Skip as e:
        return 'skip', str(e)
    except Bad as e:
        return 'bad', str(e)
    except (ImportError, MemoryError, KeyboardInterrupt):
        raise
    except AttributeError as e:
        if str(e).startswith('module '): raise          # a renamed function: nothing is decided about it
        return 'bad', f'the result cannot be interpreted: {type(e).__name__}: {e}'
    except Exception as e:                               # noqa
        return 'bad', f'the result cannot be interpreted: {type(e).__name__}: {str(e)[:300]} at {traceback.extract_tb(e.__traceback__)[-1]}'


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id'); ap.add_argument('--search', action='store_true'); ap.add_argument('--replay')
    ap.add_argument('--seed', type=int, default=1); ap.add_argument('--n', type=int, default=0)
    ap.add_argument('--worker', type=int, default=0); ap.add_argument('--workers', type=int, default=1)
    ap.add_argument('--time', type=float, default=75.); ap.add_argument('--tier', default='quick')
    a = ap.parse_args()
    common.load()
    mod = importlib.import_module(a.id.lower())
    t0 = time.time()
    out = dict(id=a.id, cases=0, skipped=0, distinct=0, failed=False, message='', input=None, samples=[], rule=getattr(mod, 'RULE', ''))
    if a.replay:
        data = json.load(open(a.replay))
        inputs = data['inputs'] if 'inputs' in data else [data['input']]
        for k, inp in enumerate(inputs):
            st, msg = one(mod, dec(inp))
            out['cases'] += 1
            if st == 'skip': out['skipped'] += 1
            if st == 'bad':
                out.update(failed=True, message=msg, input=inp, which=k); break
    else:
        n = a.n or mod.N * 6 * (10 if a.tier == 'thorough' else 1)
        seen = set()
        fixed = list(mod.fixed()) if hasattr(mod, 'fixed') else []
        k = a.worker
        while k < n + len(fixed) and time.time() - t0 < a.time:
            if k < len(fixed):
                inp = fixed[k]
            else:
                rng = np.random.default_rng([a.seed, k - len(fixed)])
                inp = mod.gen(rng, k - len(fixed))
            k += a.workers
            e = enc(inp)
            h = hashlib.sha1(json.dumps(e, sort_keys=True).encode()).hexdigest()
            st, msg = one(mod, inp)
            out['cases'] += 1
            if st == 'skip': out['skipped'] += 1
            elif h not in seen:
                seen.add(h)
                if len(out['samples']) < 2:
                    s = json.dumps(e)
                    out['samples'].append(s if len(s) < 1500 else s[:1500] + '...')
            if st == 'bad':
                out.update(failed=True, message=msg, input=e); break
        out['distinct'] = len(seen)
    out['wall_s'] = time.time() - t0
    sys.stdout.write('\n@@' + json.dumps(out) + '\n')


if __name__ == '__main__':
    main()
