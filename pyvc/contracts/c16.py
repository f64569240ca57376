"""C16: set_calseries for a float of any number of profiles and a settings file of any number of them."""
import ast
from con import *
from loops import Inv
B4 = ['use_theta_lt', 'use_theta_gt', 'use_pres_lt', 'use_pres_gt']
SETTINGS = ['breaks', 'max_breaks', 'use_percent_gt']


class Mat:
    """contents of a .mat file; a key may be absent under a condition"""
    def __init__(self, d, present): self.d, self.present = d, present
    def getitem(self, I_, k):
        k = I_.key(k)
        if k not in self.d: raise PyExc('KeyError', k)
        I_.require(self.present.get(k, TRUE), 'KeyError', k)
        return self.d[k]


def obligations(c):
    n, m, L, t, u, i = [c.int(x) for x in 'n m L t u i'.split()]
    PN = lambda a: uf('pno', [I(0), a], 'R'); CP = lambda a: uf('cpno', [I(0), a], 'R'); CS = lambda a: uf('cser', [I(0), a], 'R')
    pct = var('has_percent', 'B')
    W = lambda a: uf('onfile', [a], 'I')                       # a position of profile a in the file, if it is there
    def k_(): return fresh('k', 'I')

    def cnt(a):                                                # as the code counts
        k = k_(); return ne(bind('sum', k, m, ite(eq(CP(k), PN(a)), I(1), I(0))), 0)
    on = lambda a: uf('is_on_file', [a], 'B')
    FL = lambda a: uf('flag', [a], 'R')
    def nest(f):
        a, b = k_(), k_(); return lambda n1, n2=None: bind('forall', a, n1, bind('forall', b, a if n2 is None else n2, f(a, b)))
    def one(n1, f):
        a = k_(); return bind('forall', a, n1, f(a))
    ASC = nest(lambda a, b: lt(PN(b), PN(a)))(n)                                                        # profile numbers ascend
    DC = nest(lambda a, b: ne(CP(a), CP(b)))(m)                                                         # distinct numbers in the file
    POS = one(m, lambda d: and_(rng(uf('pos', [d], 'I'), n), eq(CP(d), PN(uf('pos', [d], 'I')))))      # all of them profiles of the float
    ON1 = one(n, lambda g: implies(on(g), and_(rng(W(g), m), eq(CP(W(g)), PN(g)))))                    # definition of on, choice of W
    ON2 = nest(lambda g, j: or_(on(g), ne(CP(j), PN(g))))(n, m)
    FLD = one(n, lambda h: eq(FL(h), ite(on(h), CS(W(h)), ite(eq(h, 0), CS(0), FL(sub(h, 1))))))       # recursive definition of the flag
    def defs(file): return [ASC, DC, POS, ON1, ON2, FLD] if file else [ASC]
    def sel(a):
        v = k_(); return bind('sel', v, n, not_(cnt(v)), a, sort='I')
    def nmiss():
        v = k_(); return bind('sum', v, n, ite(cnt(v), I(0), I(1)))
    def rank(a):
        v = k_(); return bind('sum', v, a, ite(cnt(v), I(0), I(1)))
    MS = lambda a: uf('missing', [a], 'I'); RK = lambda a: uf('rank', [a], 'I')        # e-th missing profile, rank of a missing profile
    def names():
        d, e = k_(), k_()
        return [bind('forall', d, n, eq(MS(d), sel(d))), bind('forall', e, n, eq(RK(e), rank(e)))]
    def missing():
        """the missing profiles in order"""
        b0 = defs(True) + [le(1, n), le(1, m)]
        g0 = k_(); a = c.int('a')
        c.prove('a profile is counted in the file if it is there', b0 + [rng(a, n)], eq(on(a), cnt(a)), hints=[a, W(a)])
        base = [bind('forall', g0, n, eq(on(g0), cnt(g0)))] + names() + [le(1, n), le(1, m)]
        d, e, f, g, a, b = k_(), k_(), k_(), k_(), c.int('a'), c.int('b')
        c.prove('missing profiles: at most all', base, and_(le(0, nmiss()), le(nmiss(), n)))
        c.prove('missing profiles: not on file', base + [rng(a, nmiss()), le(nmiss(), n)], and_(rng(MS(a), n), not_(on(MS(a)))), hints=[a])
        c.prove('missing profiles: in order', base + [rng(a, nmiss()), rng(b, a), le(nmiss(), n)], lt(MS(b), MS(a)), hints=[a, b])
        c.prove('missing profiles: all of them', base + [rng(a, n), not_(on(a))], and_(rng(RK(a), nmiss()), eq(MS(RK(a)), a)), hints=[a, rank(a)])
        c.abbr[nmiss()] = N = uf('n_missing', [], 'I')
        M.update(r=one(N, lambda d: and_(rng(MS(d), n), not_(on(MS(d))))), asc=nest(lambda e, f: lt(MS(f), MS(e)))(N), all=one(n, lambda g: or_(on(g), and_(rng(RK(g), N), eq(MS(RK(g)), g)))))
        return [eq(nmiss(), N), le(0, N), le(N, n)] + list(M.values())
    M = {}

    class Extend(Inv):
        fn = CO + '.set_calseries'
        hints = [I(0)]
        def applies(self, I_, s, nn, st): return any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == 'calib_profile_no' for b in s.body for x in ast.walk(b)) and 'calib_profile_no' in st.env and 'calseries' in st.env
        def covers(self, I_, st0, key): return key in (('env', 'calib_profile_no'), ('env', 'calseries'))
        def state(self, I_, st0, st, k):
            nm = fresh('cp', 'I').data[0]
            X = lambda j: uf(nm + 'p', [j], 'R'); Y = lambda j: uf(nm + 'f', [j], 'R'); self.X = X
            st.env['calib_profile_no'] = mk(AV([add(m, k)], lambda j: F(X(j)), 'f'))
            st.env['calseries'] = mk(AV([add(m, k)], lambda j: F(Y(j)), 'f'))
            c.abbr[sel(k)] = MS(k)
            self.D = nest(lambda f, g: ne(X(f), X(g)))(add(m, k))
            self.file = one(m, lambda d: and_(eq(X(d), CP(d)), eq(Y(d), CS(d)))); self.new = one(k, lambda e: and_(eq(X(add(m, e)), PN(MS(e))), eq(Y(add(m, e)), FL(MS(e)))))
            return [eq(sel(k), MS(k)), self.file, self.new, self.D]
        def claims(self, I_, st0, st, k):
            out = []
            for nm, F1, F2 in (('calib_profile_no', CP, PN), ('calseries', CS, FL)):
                v = st.env.get(nm)
                if not isinstance(v, Arr): return [(nm + ' is an array', FALSE)]
                a = I_.avs(st, v)
                if a.ndim != 1: return [(nm + ' is a vector', FALSE)]
                d, e, f, g = k_(), k_(), k_(), k_()
                x = lambda j: fl(a.elt(j)); ok = lambda j, w: and_(not_(x(j).nan), not_(x(j).bad), eq(x(j).v, w))
                out += [(nm + ': one entry per missing profile', eq(a.shape[0], add(m, k))), (nm + ': entries of the file stay', bind('forall', d, m, ok(d, F1(d)))),
                        (nm + ': entries of the earlier missing profiles', bind('forall', e, sub(k, 1), ok(add(m, e), F2(MS(e)))))]
                q = MS(sub(k, 1)); p = sub(q, 1); z = sub(add(m, k), 1); goal = or_(lt(k, 1), ok(z, F2(q)))
                if nm == 'calseries':
                    k0 = sub(k, 1); g = []
                    if k is not I(0):
                        for S in binds(x(z).v, 'sel'):
                            if S.args[2] is not I(0): continue
                            v_, n_, b_ = open_(S); C = bind('sum', v_, n_, ite(b_, I(1), I(0)))
                            for loc in (W(p), add(m, RK(p))): g += [at(self.D, S, loc), at(self.D, loc, S), counted(C, loc)]
                            e = sub(S, m); g += [at(M['asc'], k0, e), at(M['r'], e), at(self.new, e), at(self.file, S), at(ON2, I(0), S)]
                        g += [at(FLD, q), at(FLD, p), at(M['r'], k0), at(self.file, I(0)), at(self.file, W(p)), at(ON1, p), at(M['all'], p), at(M['asc'], RK(p), k0), at(self.new, RK(p))]
                    out += [(nm + ': entry of the last missing profile', goal, ('only', g), [('the first profile', eq(q, 0)), ('after a profile on file', and_(lt(0, q), on(p))), ('after a missing profile', and_(lt(0, q), not_(on(p))))], [])]
                else:
                    self.hints = [q, sub(k, 1), I(0)]
                    out += [(nm + ': entry of the last missing profile', goal), (nm + ': entries of the file differ', bind('forall', f, m, bind('forall', g, f, ne(x(f).v, x(g).v)))),
                            (nm + ': the last entry differs from those of the file', or_(lt(k, 1), bind('forall', d, m, ne(x(d).v, x(z).v)))),
                            (nm + ': the last entry differs from the earlier ones', or_(lt(k, 1), bind('forall', e, sub(k, 1), ne(x(add(m, e)).v, x(z).v)))),
                            (nm + ': the earlier entries differ', or_(lt(k, 1), bind('forall', f, z, bind('forall', g, f, ne(x(f).v, x(g).v)))), [], [], [])]
            return out

    def go(file):
        nm = 'with a settings file' if file else 'without a settings file'
        src = {k: c.arr(k, [L, n]) for k in ('SAL', 'TEMP', 'PRES')}
        src['PROFILE_NO'] = c.arr('pno', [1, n], nan=False)
        fd = dict(calseries=c.arr('cser', [1, m], nan=False), calib_profile_no=c.arr('cpno', [1, m], nan=False))
        for k in B4 + SETTINGS: fd[k] = c.arr(k, [c.int(k + '.r'), c.int(k + '.c')])
        pc = [le(1, n), le(1, m), le(0, L)] + [le(0, c.int(k + x)) for k in B4 + SETTINGS for x in ('.r', '.c')]
        cfg = mkdict(dict(FLOAT_SOURCE_DIRECTORY='S', FLOAT_SOURCE_POSTFIX='.mat', FLOAT_CALIB_DIRECTORY='C', FLOAT_CALSERIES_PREFIX='cs_', FLOAT_CALIB_POSTFIX='.m'))
        ext = Extend()
        def load(I_, a, kw):
            if a[0] == 'S/D/F.mat': return Mat(src, {})
            if a[0] != 'C/D/cs_F.m': raise Unsupported(f'file {a[0]}')
            if not file: raise PyExc('FileNotFoundError', a[0])
            return Mat(fd, dict(use_percent_gt=pct))
        class Saved:
            def __init__(self, cell): self.cell = cell
        out = mkdict({})
        def save(I_, a, kw):
            if a[0] != 'C/D/cs_F.m': raise Unsupported(f'save to {a[0]}')
            if kw: raise Unsupported('savemat options')
            if I_.dct(out): raise Unsupported('saved twice')
            I_.st.heap[out.cell] = dict(I_.dct(a[1]))
        I_ = c.interp(); I_.alts = True
        outs = c.run(CO, 'set_calseries', ['D', 'F', cfg], pc=pc, facts=defs(file) + (missing() if file else []), over={'scipy.io.loadmat': load, 'scipy.io.savemat': save}, interp=I_, invs=[ext] if file else [])
        FLAG = FL if file else (lambda a: R(1))
        for kd, v, s in outs:
            if kd == 'return': continue
            h = hy(s)
            # no error: the flags of all profiles exist (see the length lemma)
            h2 = length(nm, s, h) if file else h
            c.prove(f'{nm}: no {v}', h2, FALSE)
        for kd, v, s in outs:
            if kd != 'return': continue
            d = s.content(out.cell)
            if set(d) != set(B4 + SETTINGS + ['calseries', 'calib_profile_no']): c.add(f'{nm}: all settings saved', 'refuted', str(sorted(d))); continue
            a, b = [flat(I_, s, d[k]) for k in ('calib_profile_no', 'calseries')]
            h = hy(s)
            if file: h = length(nm, s, h)
            c.prove(f'{nm}: one entry per profile', h, and_(eq(a.shape[0], n), eq(b.shape[0], n)))
            p = lambda j: fl(a.elt(j))
            h = positions(nm, h, p, a.shape[0], file, ext)
            c.prove(f'{nm}: sorted by profile', h + [rng(t, n)], and_(not_(p(t).nan), not_(p(t).bad), eq(p(t).v, PN(t))), hints=[t])
            x, y, z = k_(), k_(), k_()
            empty = or_(*[bind('forall', x, L, uf(q + '.nan', [x, t], 'B')) for q in ('SAL', 'TEMP', 'PRES')])
            f = fl(b.elt(t))
            c.prove(f'{nm}: a profile without valid data has flag 0', h + [rng(t, n), empty], and_(not_(f.nan), not_(f.bad), eq(f.v, R(0))))
            if file:
                ot, = orders(p(t).v); e = sub(ot, m)
                g = ground(h) + [rng(t, n), not_(empty), at(ext.file, ot), at(ext.new, e), at(ON1, t), at(ON2, t, ot), at(DC, ot, W(t)), at(DC, W(t), ot), at(FLD, t), at(ASC, MS(e), t), at(ASC, t, MS(e)), at(M['r'], e), eq(p(t).v, PN(t))]
                c.by_cases(f'{nm}: flags kept or inherited', g, and_(not_(f.nan), not_(f.bad), eq(f.v, FL(t))), [('on file', lt(ot, m)), ('new', le(m, ot))])
            else: c.prove(f'{nm}: ' + ('flags kept or inherited' if file else 'flag 1 by default'), h + [rng(t, n), not_(empty)], and_(not_(f.nan), not_(f.bad), eq(f.v, FLAG(t))), hints=[t])
            # settings
            for k in B4 + SETTINGS:
                bd = k in B4
                for cc, v2 in (d[k].cases() if isinstance(d[k], IP.Alt) else [([], d[k])]):
                    if not file or (k == 'use_percent_gt' and not isinstance(v2, Arr)): 
                        df = dict(breaks=[], max_breaks=4, use_percent_gt=Fr(1, 2)).get(k, [])
                        if file: cc = cc
                        if df == []: c.prove(f'{nm}: default of {k}', h + cc, empt(I_, s, v2))
                        else: c.prove(f'{nm}: default of {k}', h + cc, num_is(I_, s, v2, df) if not file else and_(not_(pct), num_is(I_, s, v2, df)))
                        continue
                    r, w = c.int(k + '.r'), c.int(k + '.c')
                    if isinstance(v2, Lst):
                        if bd: c.prove(f'{nm}: {k} dropped only with more than one value', h + cc, and_(empt(I_, s, v2), lt(1, r)))
                        else: c.add(f'{nm}: {k} kept', 'refuted', 'replaced by a list')
                        continue
                    if not isinstance(v2, Arr): c.add(f'{nm}: {k} kept', 'refuted', repr(v2)); continue
                    e = I_.avs(s, v2)
                    if e.ndim != 2: c.add(f'{nm}: {k} kept', 'refuted', 'shape'); continue
                    x1, x2 = fl(e.elt(t, u)), F(uf(k, [t, u], 'R'), uf(k + '.nan', [t, u], 'B'))
                    c.prove(f'{nm}: {k} kept', h + cc + [rng(t, r), rng(u, w)], and_(eq(e.shape[0], r), eq(e.shape[1], w), feq(x1, x2), le(r, 1) if bd else TRUE, pct if k == 'use_percent_gt' else TRUE))
        if not outs: c.add(f'{nm}: some outcome', 'refuted')
    def flat(I_, s, v):
        if not isinstance(v, Arr): raise Unsupported('not an array')
        a = I_.avs(s, v)
        if a.ndim != 1: raise Unsupported('not a vector')
        return a
    def empt(I_, s, v):
        if isinstance(v, Lst): return eq(s.content(v.cell).n, 0)
        if isinstance(v, Arr): return eq(I_.avs(s, v).size, 0)
        return FALSE
    def num_is(I_, s, v, x):
        if not isnum(v): return FALSE
        v = fl(v); return and_(not_(v.nan), not_(v.bad), eq(v.v, R(x)))

    lem = {}
    def length(nm, s, h):
        """m + number of missing profiles = n: counting the profiles on file"""
        if 'len' not in lem:
            # pos maps the file's entries one to one onto the profiles on file; W is its inverse there
            base = defs(True) + [le(1, n), le(1, m)]
            a, b = c.int('a'), c.int('b')
            c.prove('lemma: entries of the file are different profiles', base + [rng(a, m), rng(b, m), eq(uf('pos', [a], 'I'), uf('pos', [b], 'I'))], eq(a, b), hints=[a, b])
            c.prove('lemma: an entry is a profile on file', base + [rng(a, m)], and_(rng(uf('pos', [a], 'I'), n), on(uf('pos', [a], 'I'))), hints=[a])
            c.prove('lemma: a profile on file is an entry', base + [rng(a, n), on(a)], and_(rng(W(a), m), eq(uf('pos', [W(a)], 'I'), a)), hints=[a, W(a)])
            c.trusted.add('sets with a one-to-one map onto each other have equally many elements (the premises are discharged)')
            lem['len'] = [eq(add(m, nmiss()), n)]
        return h + lem['len']
    def inverse(x, j):
        """position at which the sort puts entry j, for the sort used in x"""
        out = {}
        def go(y):
            if y.op == 'bind' and y.data[0] == 'argsort':
                v, nn, body = open_(y); out[PR.rb('argsortinv', v, nn, body, j, sort='I')] = 1
            for z in y.args: go(z)
        go(x); return list(out)
    def orders(x):
        out = {}
        def go(y):
            if y.op == 'bind' and y.data[0] == 'argsort': out[y] = 1
            for z in y.args: go(z)
        go(x); return list(out)
    def positions(nm, h, p, N, file, ext):
        """ascending numbers that are exactly the profiles, as many as there are: the same sequence"""
        a = c.int('a')
        ot, ou = [orders(p(x).v) for x in (t, u)]
        if len(ot) != 1 or len(ou) != 1: raise Unsupported('order of the profiles')
        ot, ou = ot[0], ou[0]
        if file:
            X = ext.X; k = k_()
            c.by_cases(f'{nm}: the entries are profiles of the float', h + [rng(a, N)], not_(bind('forall', i, n, ne(PN(i), X(a)))), [('on file', lt(a, m)), ('new', le(m, a))], hints=[a, sub(a, m), uf('pos', [a], 'I'), MS(sub(a, m))])
            c.by_cases(f'{nm}: every profile is an entry', h + [rng(a, n)], not_(bind('forall', i, N, ne(PN(a), X(i)))), [('on file', on(a)), ('new', not_(on(a)))], hints=[a, W(a), RK(a), add(m, RK(a))])
            WA, WB = lambda j: uf('profile_of', [j], 'I'), lambda j: uf('entry_of', [j], 'I')
            k1, k2 = k_(), k_()
            h = h + [bind('forall', k1, N, and_(rng(WA(k1), n), eq(PN(WA(k1)), X(k1)))), bind('forall', k2, n, and_(rng(WB(k2), N), eq(PN(k2), X(WB(k2)))))]
        c.prove(f'{nm}: numbers ascend', h + [rng(t, n), rng(u, t)], lt(p(u).v, p(t).v), hints=[t, u, ot, ou]) if not file else c.prove(f'{nm}: numbers ascend', ground(h) + [rng(t, n), rng(u, t), at(ext.D, ot, ou), at(ext.D, ou, ot)], lt(p(u).v, p(t).v))
        c.prove(f'{nm}: only profiles of the float', h + [rng(t, n)], and_(not_(p(t).nan), not_(p(t).bad), not_(bind('forall', a, n, ne(PN(a), p(t).v)))), hints=[t, ot] + ([WA(ot)] if file else []))
        w = WB(i) if file else i
        c.prove(f'{nm}: every profile of the float', h + [rng(i, n)], not_(bind('forall', u, n, ne(PN(i), p(u).v))), hints=[i, w] + inverse(p(u).v, w))
        # sequences X (the result) and PN, abstracted
        X = lambda j: uf('X', [j], 'R'); A = lambda j: uf('wa', [j], 'I'); Bq = lambda j: uf('wb', [j], 'I')
        k1, k2, k3, k4, k5, k6, k7 = [k_() for _ in range(7)]
        asc = lambda f: bind('forall', k1, n, bind('forall', k2, k1, lt(f(k2), f(k1))))
        step = [asc(X), asc(PN), bind('forall', k3, n, and_(rng(A(k3), n), eq(X(k3), PN(A(k3))))), bind('forall', k4, n, and_(rng(Bq(k4), n), eq(PN(k4), X(Bq(k4))))), rng(t, n), bind('forall', k5, t, eq(X(k5), PN(k5)))]
        c.prove(f'{nm}: ascending sequences of the same numbers are equal (step of the induction)', step, eq(X(t), PN(t)), hints=[t, A(t), Bq(t)])
        return h + [bind('forall', k6, n, eq(p(k6).v, PN(k6))), bind('forall', k7, n, and_(not_(p(k7).nan), not_(p(k7).bad)))]
    c.ob('without a settings file', lambda: go(False))
    c.ob('with a settings file', lambda: go(True))
    c.sat('settings file', defs(True) + [le(1, n), le(1, m)])
