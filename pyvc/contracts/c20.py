"""C20: selection by level, removal of outliers, merging of selected points (pyowc.helper), any number of casts."""
from con import *
from loops import Inv
KEYS = ['hist_sal', 'hist_pres', 'hist_long', 'hist_lat', 'hist_dates', 'hist_z']


def index_of(t, name):
    """the index term at which array `name` is read in t"""
    out = set()
    def go(x):
        if x.op == 'uf' and x.data == name: out.add(x.args[-1]); return
        for a in x.args: go(a)
    go(t)
    return out.pop() if len(out) == 1 else None


def flat1(c, s, v):
    a = c.last.avs(s, v)
    import npm
    sv, c.last.st = c.last.st, s
    try: return npm.flatten_av(c.last, a) if a.ndim != 1 else a
    finally: c.last.st = sv


def obligations(c):
    L, S, lev, t, q, m = [c.int(x) for x in 'L S lev t q m'.split()]
    pd = c.real('pd')

    def select():
        g = {k: c.arr(k, [S], nan=False) for k in ('grid_long', 'grid_lat', 'grid_dates', 'grid_z')}
        fp, hs, hp = c.arr('fp', [L], nan=False), c.arr('isal', [L, S]), c.arr('ipres', [L, S])
        SN = lambda x: uf('isal.nan', [lev, x], 'B'); PN = lambda x: uf('ipres.nan', [lev, x], 'B')
        PV = lambda x: uf('ipres', [lev, x], 'R'); FP = uf('fp', [lev], 'R')
        k = fresh('k', 'I')
        # interpolated pressure and salinity are missing together (C10)
        facts = [bind('forall', k, S, eq(SN(k), PN(k)))]
        good = lambda x: and_(not_(SN(x)), lt(absr(sub(PV(x), FP)), pd.v))
        outs = c.run(HE, 'process_profile_hist_variables', [mkdict(g), fp, hs, hp, lev, pd], pc=[le(0, S), le(1, L), rng(lev, L)], facts=facts)
        src = dict(hist_sal=('isal', 2), hist_pres=('ipres', 2), hist_long=('grid_long', 1), hist_lat=('grid_lat', 1), hist_dates=('grid_dates', 1), hist_z=('grid_z', 1))
        for v, s in c.returns(outs, 'selection: returns'):
            d = s.content(v.cell)
            if set(KEYS) - set(d): c.add('selection: six arrays', 'refuted', str(sorted(d))); continue
            ar = {x: flat1(c, s, d[x]) for x in KEYS}
            n = ar['hist_long'].shape[0]
            w = index_of(fl(ar['hist_long'].elt(t)).v, 'grid_long')
            if w is None: c.add('selection: casts used', 'unknown', 'no index'); continue
            at = lambda x: subst(w, {t: x})
            h = hy(s) + [rng(t, n)]
            c.prove('selection: a cast is used only if interpolated and within the pressure distance', h, and_(rng(w, S), good(w)))
            c.prove('selection: in archive order, each once', h + [rng(q, n), lt(q, t)], lt(at(q), w))
            x = c.int('x'); sm = lambda f, u: bind('sum', q, u, ite(f, I(1), I(0)))
            # completeness: the number used is the number of suitable casts
            c.prove('selection: every suitable cast is used', hy(s) + [rng(x, S), good(x)], not_(bind('forall', q, n, ne(at(q), x))), hints=witness(w, t, x))
            for k2, (nm, nd) in src.items():
                c.prove(f'selection: {k2} of the same casts', hy(s), eq(ar[k2].shape[0], n))
                e = fl(ar[k2].elt(t)); want = F(uf(nm, [lev, w] if nd == 2 else [w], 'R'), uf(nm + '.nan', [lev, w], 'B') if nd == 2 else FALSE)
                c.prove(f'selection: {k2} is paired', h, feq(e, want))
    c.ob('selection', select)

    def outliers(col):
        hd = {k: c.arr(k, [m, 1] if col else [m], nan=False) for k in KEYS}
        o = c.arr('out', [q], 'i'); k = fresh('k', 'I'); k3 = fresh('k', 'I')
        inb = [bind('forall', k, q, rng(uf('out', [k], 'I'), m))]
        isout = lambda x: le(1, bind('sum', k3, q, ite(eq(uf('out', [k3], 'I'), x), I(1), I(0)))); k4 = fresh('k', 'I')
        outs = c.run(HE, 'remove_statical_outliers', [o, mkdict(hd)], pc=[le(0, m), le(0, q)], facts=inb)
        nm = 'outliers' + (' (columns)' if col else '')
        for v, s in c.returns(outs, f'{nm}: returns'):
            d = s.content(v.cell)
            if set(KEYS) - set(d): c.add(f'{nm}: six arrays', 'refuted', str(sorted(d))); continue
            v0, n0 = fresh('k', 'I'), bind('sum', k4, m, ite(isout(k4), I(0), I(1)))
            for k2 in KEYS:
                a = flat1(c, s, d[k2])
                c.prove(f'{nm}: {k2} keeps the others', hy(s), eq(a.shape[0], n0))
                e = fl(a.elt(t)); w = bind('sel', v0, m, not_(isout(v0)), t, sort='I')
                c.prove(f'{nm}: {k2} in order and paired', hy(s) + [rng(t, n0)], feq(e, F(uf(k2, [w] + ([I(0)] if col else []), 'R'))))
    c.ob('outliers', lambda: outliers(False)); c.ob('outliers (columns)', lambda: outliers(True))

    X, Y = (lambda j: uf('lon', [j, I(0)], 'R')), (lambda j: uf('lat', [j, I(0)], 'R'))
    P, pi, P0 = c.int('P'), c.int('pi'), c.int('P0')
    OLD = lambda r, a: uf('old', [r, I(a) if isinstance(a, int) else a], 'R')
    lim = R(Fr(1, 60))
    near = lambda a, b: and_(lt(absr(sub(a[0], b[0])), lim), lt(absr(sub(a[1], b[1])), lim))

    class Merge(Inv):
        hints = [I(0)]
        fn = HE + '.selected_historical_points'

        def cell(self, st): return st.env['data'].cell
        def covers(self, I_, st0, key): return key[0] == 'dict' and key[1] == self.cell(st0) and key[2] == 'selected_hist'

        def state(self, I_, st0, st, k):
            u = fresh('sh', 'I').data[0]; n = fresh('len', 'I')
            S_ = lambda r, a: uf(u, [r, I(a) if isinstance(a, int) else a], 'R')
            set_state_(st, self.cell(st0), mk(AV([n, 3], lambda r, a: F(S_(r, a)), 'f')))
            j, r, r2 = fresh('j', 'I'), fresh('r', 'I'), fresh('r', 'I')
            row = lambda r: (S_(r, 0), S_(r, 1))
            wit = lambda j: uf(u + 'wit', [j], 'I'); src = lambda r: uf(u + 'src', [r], 'I')
            b = self.base(st0)
            return [le(b, n), le(1, n), bind('forall', j, k, and_(rng(wit(j), n), near(row(wit(j)), (X(j), Y(j))))),
                    bind('forall', r, b, and_(*[eq(S_(r, a), OLD(r, a)) for a in range(3)])),
                    bind('forall', r, n, or_(lt(r, b), and_(rng(src(r), P), eq(S_(r, 0), X(src(r))), eq(S_(r, 1), Y(src(r))), eq(S_(r, 2), uf('pno', [pi], 'R'))))),
                    bind('forall', r, n, or_(lt(r, b), bind('forall', r2, r, not_(near(row(r), row(r2))))))]

        def base(self, st0): return P0

        def claims(self, I_, st0, st, k):
            v = st.content(self.cell(st))['selected_hist']
            if not isinstance(v, Arr): return [('a table of points', FALSE)]
            a = I_.avs(st, v)
            if a.ndim != 2 or not (isc(a.shape[1]) and a.shape[1].data == 3): return [('a table of points', FALSE)]
            n = a.shape[0]; E = lambda r, x: fl(a.elt(r, I(x))); row = lambda r: (E(r, 0).v, E(r, 1).v)
            j, r, r2 = fresh('j', 'I'), fresh('r', 'I'), fresh('r', 'I'); b = self.base(st0)
            ok = lambda r: and_(*[and_(not_(E(r, x).nan), not_(E(r, x).bad)) for x in range(3)])
            return [('points already stored stay first', and_(le(b, n), bind('forall', r, b, and_(ok(r), *[eq(E(r, x).v, OLD(r, x)) for x in range(3)])))),
                    ('every position so far has a stored point within a sixtieth', bind('forall', j, k, not_(bind('forall', r, n, not_(near(row(r), (X(j), Y(j)))))))),
                    ('new points are positions with the number of the profile', bind('forall', r, n, or_(lt(r, b), and_(ok(r), eq(E(r, 2).v, uf('pno', [pi], 'R')), not_(bind('forall', j, P, not_(and_(eq(E(r, 0).v, X(j)), eq(E(r, 1).v, Y(j)))))))))),
                    ('a new point is a sixtieth away from every earlier one', bind('forall', r, n, or_(lt(r, b), bind('forall', r2, r, not_(near(row(r), row(r2)))))))]

    def set_state_(st, cell, v):
        d = dict(st.content(cell)); d['selected_hist'] = v; st.heap[cell] = d

    def merge(empty):
        hd = {'hist_long': c.arr('lon', [P, 1], nan=False), 'hist_lat': c.arr('lat', [P, 1], nan=False)}
        sh = mklist([]) if empty else c.arr('old', [P0, 3], nan=False)
        data = mkdict({'selected_hist': sh, 'la_profile_no': c.arr('pno', [q], nan=False)})
        inv = Merge()
        if empty: inv.base = lambda st0: I(0)
        outs = c.run(HE, 'selected_historical_points', [data, mkdict(hd), pi], pc=[le(1, P), le(1, P0), rng(pi, q)], invs=[inv])
        nm = 'merging into an empty list' if empty else 'merging'
        for v, s in c.returns(outs, f'{nm}: returns'):
            for name, g in inv.claims2(c, s, v): c.prove(f'{nm}: {name}', hy(s), g)
    def claims2(self, c, s, v):
        sv, c.last.st = c.last.st, s
        st = State(dict(data=v), s.heap, s.pc, s.facts)
        try: return self.claims(c.last, st, st, P)
        finally: c.last.st = sv
    Merge.claims2 = claims2
    c.ob('merging', lambda: merge(False)); c.ob('merging into an empty list', lambda: merge(True))
    c.sat('casts', [le(1, S), le(1, L), rng(lev, L)])


def witness(w, t, x):
    """rank terms that invert the (possibly nested) selection w(t) at x"""
    out = []
    def go(u, x):
        if u.op == 'bind' and u.data[0] == 'sel':
            v, n, b = open_(u)
            r = bind('sum', v, x, ite(b, I(1), I(0))); out.append(r); go(u.args[2], r)
        elif u.op in ('fdiv', 'mod', 'add'):
            for a in u.args: go(a, x)
    go(w, x)
    return out + [x]
