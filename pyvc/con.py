"""Contracts: symbolic inputs, obligations, results."""
import time, sys, traceback
from vals import *
from ir import *
import prove as PR
import interp as IP
from interp import Interp, mk, mklist, mkseq, mkdict, State, PyExc

U, FND, ST, WR, FE, HE, CA, CO = ('pyowc.utilities', 'pyowc.core.finders', 'pyowc.core.stats', 'pyowc.data.wrangling', 'pyowc.data.fetchers', 'pyowc.helper', 'pyowc.calibration', 'pyowc.configuration')


class Con:
    """obligations of one property"""
    def __init__(self, pid, tier='quick', deadline=None):
        self.pid, self.tier = pid, tier
        self.obs = []; self.functions = set(); self.bounded = []; self.assumptions = set(); self.trusted = set(); self.vac = []
        self.deadline = deadline or time.time() + 400
        self.emit = lambda o: None
        self.scale = {'quick': 1, 'retry': 2.5}.get(tier, 6); self.only = None
        self.abbr = {}                                  # term -> shorter term that the hypotheses define to be equal to it

    def interp(self):
        I_ = Interp(); self.I = I_
        return I_

    # ---- inputs
    def int(self, name): return var(name, 'I')
    def real(self, name): return F(var(name, 'R'))
    def flt(self, name): return F(var(name, 'R'), var(name + '.nan', 'B'))
    def arr(self, name, shape, dt='f', nan=True):
        return mk(self.av(name, shape, dt, nan))
    def av(self, name, shape, dt='f', nan=True):
        shape = [I(s) for s in (shape if isinstance(shape, (tuple, list)) else (shape,))]
        if dt == 'f': e = lambda *ix: F(uf(name, ix, 'R'), uf(name + '.nan', ix, 'B') if nan else FALSE)
        elif dt == 'i': e = lambda *ix: uf(name, ix, 'I')
        else: e = lambda *ix: uf(name, ix, 'B')
        return AV(shape, e, dt)

    # ---- running
    def run(self, mod, fn, args, kw=None, pc=(), facts=(), over=None, interp=None, budget=4000, invs=()):
        I_ = interp or self.interp()
        I_.budget = budget
        if over: I_.over.update(over)
        for v in invs: v.con = self; I_.invs.append(v)
        outs = I_.run(I_.func(mod, fn), args, kw, pc, facts)
        self.functions |= I_.inlined; self.assumptions |= I_.notes
        self.last = I_
        return outs

    # ---- obligations
    def add(self, name, status, why='', secs=0., inputs=None, genuine=False, how=''):
        o = dict(name=name, status=status, why=why, secs=round(secs, 2), how=how)
        if inputs is not None: o['inputs'] = inputs
        if genuine: o['genuine'] = True
        self.obs.append(o); self.emit(o)
        return status == 'proved'

    def prove(self, name, hyps, goal, timeout=8., rounds=4, hints=(), split=5, genuine=False, decode=None, limit=120.):
        t0 = time.time()
        if self.only is not None and name not in self.only: return True
        if time.time() > self.deadline: return self.add(name, 'unknown', 'time limit of the check')
        if self.abbr:
            memo = dict(self.abbr); rp = lambda x: treplace(x, memo) if isinstance(x, T) else x
            hyps = [rp(x) for x in hyps]; goal = rp(goal); hints = [rp(x) for x in hints]
        PR.Clock.end = min(self.deadline, t0 + limit * min(self.scale, 4))
        try:
            st, how, m = PR.prove(list(hyps), goal, timeout * min(self.scale, 4), rounds, hints, split=split)
        except Unsupported as e: return self.add(name, 'unsupported', str(e), time.time() - t0)
        except RecursionError: return self.add(name, 'unknown', 'term too deep', time.time() - t0)
        except PR.OutOfTime: return self.add(name, 'unknown', 'time limit', time.time() - t0)
        finally: PR.Clock.end = self.deadline
        inp = None; why = ''
        if st == 'refuted':
            why = 'the solver has a model of the negated obligation (ground instances)'
            if decode is not None and m is not None:
                try: inp = decode(m)
                except Exception as e: why += f'; decoding failed: {type(e).__name__} {e}'
        return self.add(name, st, why, time.time() - t0, inp, genuine and inp is not None, how)

    def by_cases(self, name, hyps, goal, cases, **k):
        """the goal in each case, and that the cases are all"""
        for cn, cc in cases: self.prove(f'{name}: {cn}', list(hyps) + [cc], goal, **k)
        self.prove(f'{name}: no other case', list(hyps) + [not_(cc) for _, cc in cases], goal, **k)

    def ob(self, name, f):
        """runs f() (which registers obligations); anything outside the subset becomes an unsupported obligation"""
        t0 = time.time()
        if time.time() > self.deadline: return self.add(name, 'unknown', 'time limit of the check')
        PR.Clock.end = self.deadline
        try: return f()
        except Unsupported as e: self.add(name, 'unsupported', str(e), time.time() - t0)
        except RecursionError: self.add(name, 'unsupported', 'recursion depth', time.time() - t0)
        except PR.OutOfTime: self.add(name, 'unknown', 'time limit', time.time() - t0)
        except (IP.Dead,): self.add(name, 'unsupported', 'no path', time.time() - t0)
        except Exception as e:
            if '--debug' in sys.argv: traceback.print_exc()
            self.add(name, 'unsupported', f'verifier error: {type(e).__name__}: {e}', time.time() - t0)

    def returns(self, outs, name='returns normally', hyps=(), **k):
        """obligation: every outcome is a normal return; gives [(value, state)]"""
        good = [(v, s) for kd, v, s in outs if kd == 'return']
        for kd, v, s in outs:
            if kd != 'return': self.prove(f'{name} ({v})', list(s.facts) + list(s.pc) + list(hyps), FALSE, **k)
        if not any(kd != 'return' for kd, _, _ in outs): self.add(name, 'proved', how='symbolic execution')
        return good

    def sat(self, name, hyps):
        """precondition is satisfiable (not vacuous)"""
        r = PR.P.unsat(list(hyps), 3., 2)[0]
        self.vac.append((name, r != 'unsat'))
        if r == 'unsat': self.add(name + ' [vacuous]', 'unknown', 'the hypotheses are contradictory')


def hy(s): return list(s.facts) + list(s.pc)
def feq(x, y):
    """two float values agree: both NaN or same value, neither unspecified"""
    x, y = fl(x), fl(y)
    return and_(eq(x.nan, y.nan), or_(x.nan, eq(x.v, y.v)), not_(x.bad))
def rng(i, n): return and_(le(0, i), lt(i, n))


def at(f, *ts):
    """instance of a universal fact (nested ones take one term each)"""
    g = []
    for k, t in enumerate(ts):
        if f.op == 'and': return implies(and_(*g), and_(*[at(x, *ts[k:]) for x in f.args]))
        if f.op != 'bind' or f.data[0] != 'forall': raise Unsupported('not a universal fact')
        v, n, b = open_(f); g.append(rng(t, n)); f = subst(b, {v: t})
    return implies(and_(*g), f)
def counted(s, j):
    """a count of the elements with a property is positive if j has it"""
    v, n, b = open_(s)
    if s.data[0] != 'sum' or b.op != 'ite' or b.args[1] is not I(1) or b.args[2] is not I(0): raise Unsupported('not a count')
    return implies(and_(rng(j, n), subst(b.args[0], {v: j})), le(1, s))
def ground(hyps): return [x for h in hyps for x in PR.flat([h]) if not PR.has_forall([x])]
def binds(t, kind):
    """ground terms of a kind in t"""
    out = {}; seen = set()
    def go(x):
        if x in seen: return
        seen.add(x)
        if x.op == 'bind' and x.data[0] == kind and not any(n.startswith('#') for n, _ in x.fv): out[x] = 1
        for a in x.args: go(a)
    go(t); return list(out)


def scal(I_, st, v):
    """scalar value of a result that may be a 0-d / one-element array"""
    if isinstance(v, Arr):
        a = I_.avs(st, v); return a.elt(*[I(0)] * a.ndim)
    return v
