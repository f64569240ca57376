"""C15: the stored columns and the bookkeeping of update_salinity_mapping, and its helpers."""
from con import *
LA = dict(la_ptmp='la_ptmp', la_mapped_sal='la_mapped_sal', la_map_sal_errors='la_mapsalerrors', la_noise_sal='la_noise_sal', la_signal_sal='la_signal_sal')
SC = ['scale_long_large', 'scale_lat_large', 'scale_long_small', 'scale_lat_small', 'scale_phi_large', 'scale_phi_small', 'scale_age_large', 'scale_age_small', 'use_pv', 'use_saf', 'p_delta', 'p_exclude']


def path(exists):
    return lambda I_, a, kw: Obj('path', is_file=lambda I_, *a: B(exists), exists=lambda I_, *a: B(exists))


def stored(c, M, P, saf=True, older=False):
    """contents of a mapped file of M levels and P profiles"""
    d = {(k if older else v): c.arr('old_' + k, [M, P]) for k, v in LA.items()}
    d.update({k: c.arr('old_' + k, [1, P]) for k in SC if saf or k != 'use_saf'})
    d['la_profile_no'] = c.arr('old_la_profile_no', [1, P], nan=False)
    d['selected_hist'] = c.arr('old_selected_hist', [c.int('q'), I(3)], nan=False)
    return d


def arr(I_, s, v, nd):
    if not isinstance(v, Arr): raise Unsupported(f'not an array: {v!r}')
    a = I_.avs(s, v)
    if a.ndim != nd: raise Unsupported('dimensions')
    return a


def seq(I_, s, v):
    """(length, element) of a list or a vector"""
    if isinstance(v, Lst): q = s.content(v.cell); return q.n, q.elt
    a = arr(I_, s, v, 1); return a.shape[0], a.elt


def U1(nm, *ix): return F(uf(nm, ix, 'R'), uf(nm + '.nan', ix, 'B'))


def helpers(c):
    M, P, L, i, j = [c.int(x) for x in 'M P L i j'.split()]

    def load(saf, older):
        nm = 'stored data' + ('' if saf else ' without front option') + (', older name of the errors' if older else '')
        fd = stored(c, M, P, saf, older)
        outs = c.run(HE, 'load_varibales_from_file', ['M/map_F.mat', L], pc=[le(1, M), le(1, P), le(M, L), le(0, c.int('q'))],
                     over={'pathlib.Path': path(True), 'scipy.io.loadmat': lambda I_, a, kw: mkdict(fd)})
        for v, s in c.returns(outs, nm + ': no error'):
            d = s.content(v.cell); I_ = c.last; h = hy(s)
            miss = [k for k in list(LA) + SC + ['la_profile_no', 'selected_hist', 'profile_index'] if k not in d]
            c.add(nm + ': all variables', 'refuted' if miss else 'proved', str(miss) if miss else '')
            if miss: continue
            for k in LA:
                a = arr(I_, s, d[k], 2)
                c.prove(f'{nm}: {k} keeps the stored levels, new levels missing', h, and_(eq(a.shape[0], L), eq(a.shape[1], P)))
                c.prove(f'{nm}: {k} stored values', h + [rng(i, M), rng(j, P)], feq(a.elt(i, j), U1('old_' + k, i, j)))
                c.prove(f'{nm}: {k} new levels', h + [le(M, i), lt(i, L), rng(j, P)], fl(a.elt(i, j)).nan)
            for k in SC:
                n, e = seq(I_, s, d[k])
                c.prove(f'{nm}: {k}', h + [rng(j, P)], and_(eq(n, P), feq(e(j), U1('old_' + k, 0, j) if k != 'use_saf' or saf else F(R(0)))))
            a = arr(I_, s, d['la_profile_no'], 1)
            c.prove(f'{nm}: profile numbers', h + [rng(j, P)], and_(eq(a.shape[0], P), eq(fl(a.elt(j)).v, uf('old_la_profile_no', [I(0), j], 'R')), not_(fl(a.elt(j)).nan)))
            c.prove(f'{nm}: next column', h, eq(it(scal(I_, s, d['profile_index'])), P))

    def empty():
        outs = c.run(HE, 'load_varibales_from_file', ['M/map_F.mat', L], pc=[le(0, L)], over={'pathlib.Path': path(False)})
        for v, s in c.returns(outs, 'no stored data: no error'):
            d = s.content(v.cell); I_ = c.last; h = hy(s)
            for k in LA:
                a = arr(I_, s, d[k], 2); c.prove(f'no stored data: {k} has no columns', h, and_(eq(a.shape[0], L), eq(a.shape[1], 0)))
            for k in SC + ['la_profile_no', 'selected_hist']: c.prove(f'no stored data: {k} empty', h, eq(seq(I_, s, d[k])[0], 0))
            c.prove('no stored data: next column', h, eq(it(scal(I_, s, d['profile_index'])), 0))

    def column(new):
        nm = 'new column' if new else 'reset column'; q = P if new else c.int('q')
        d = mkdict({k: c.arr(k, [L, P]) for k in LA})
        outs = c.run(HE, 'process_profiles_la_variables', [d, L, q], pc=[le(0, L), le(0, P)] + ([] if new else [rng(q, P)]))
        for v, s in c.returns(outs, nm + ': no error'):
            r = s.content(v.cell); I_ = c.last; h = hy(s)
            for k in LA:
                a = arr(I_, s, r[k], 2)
                c.prove(f'{nm}: {k} has one column per profile', h, and_(eq(a.shape[0], L), eq(a.shape[1], add(P, 1) if new else P)))
                c.prove(f'{nm}: {k} is missing', h + [rng(i, L)], fl(a.elt(i, q)).nan)
                c.prove(f'{nm}: {k} of other columns unchanged', h + [rng(i, L), rng(j, P), ne(j, q)], feq(a.elt(i, j), U1(k, i, j)))

    def fdata():
        K = dict(float_lat='LAT', float_long='LONG', float_date='DATES', float_sal='SAL', float_tmp='TEMP', float_ptmp='PTMP', float_pres='PRES')
        src = {v: c.arr(v, [1, P] if v in ('LAT', 'LONG', 'DATES') else [L, P]) for v in K.values()}
        outs = c.run(HE, 'get_float_data', [mkdict(src), j], pc=[rng(j, P), le(0, L)])
        for v, s in c.returns(outs, 'float data: no error'):
            d = s.content(v.cell); I_ = c.last; h = hy(s)
            for k, n in K.items():
                if n in ('LAT', 'LONG', 'DATES'): c.prove(f'float data: {k}', h, feq(scal(I_, s, d[k]), U1(n, 0, j)))
                else:
                    a = arr(I_, s, d[k], 1); c.prove(f'float data: {k}', h + [rng(i, L)], and_(eq(a.shape[0], L), feq(a.elt(i), U1(n, i, j))))

    def sort():
        ix = c.av('ix', [P], 'i'); e = c.int('e')
        bound = bind('forall', e, P, rng(uf('ix', [e], 'I'), P))
        d = mkdict(dict(a=c.arr('a', [L, P]), b=c.arr('b', [P]), n=mk(AV((), lambda: P, 'i'))))
        outs = c.run(HE, 'sort_numpy_array', [d, mk(ix)], pc=[le(1, L), le(2, P)], facts=[bound])
        for v, s in c.returns(outs, 'sort: no error', hints=[j]):
            r = s.content(v.cell); I_ = c.last; h = hy(s); o = uf('ix', [j], 'I')
            a, b = arr(I_, s, r['a'], 2), arr(I_, s, r['b'], 1)
            c.prove('sort: matrices by column', h + [rng(i, L), rng(j, P)], and_(eq(a.shape[0], L), eq(a.shape[1], P), feq(a.elt(i, j), U1('a', i, o))), hints=[j])
            c.prove('sort: vectors', h + [rng(j, P)], and_(eq(b.shape[0], P), feq(b.elt(j), U1('b', o))), hints=[j])

    for saf, older in ((True, False), (False, False), (True, True)): c.ob('stored data', lambda: load(saf, older))
    c.ob('no stored data', empty)
    for n in (True, False): c.ob('column', lambda: column(n))
    c.ob('float data', fdata); c.ob('sort', sort)


def obligations(c):
    c.ob('helpers', lambda: helpers(c))
    c.ob('driver', lambda: drive(c))


def drive(c):
    from contracts.driver import Driver, LA as L2, eqv
    D = Driver(c, lambda name: not name.startswith('arguments:') or name in OWN, flat=False)
    n, L, P = D.n, D.L, D.P; i, t, u = c.int('i'), c.int('t'), c.int('u')
    outs = D.go(); I_ = D.I_
    for kd, v, s in outs:
        if kd != 'return': c.prove(f'driver: no {v}', hy(s), FALSE)
    good = [s for kd, v, s in outs if kd == 'return']
    if not good: return c.add('driver: some outcome', 'refuted')
    N, ms = D.nm, D.ms
    for s in good:
        h = hy(s); d = s.content(D.out.cell)
        miss = [k for k in [*L2.values(), *SC, 'la_profile_no', 'selected_hist'] if k not in d]
        if miss: c.add('driver: all variables saved', 'unknown', str(miss)); continue
        pn = eqv(I_, s, d['la_profile_no'], 1)
        if pn is None: c.add('driver: profile numbers saved', 'unknown'); continue
        T_ = add(P, N)
        so = order(fl(pn[1](t)).v)
        # position of saved column t before the sort: known only through the sort itself
        if so is None: o = t; small = [le(T_, 1)]
        else: o = so; small = []
        no = lambda q: ite(lt(q, P), D.ON(q), D.PN(ms(sub(q, P))))
        h0 = h + [rng(t, T_)]
        c.prove('driver: one column per profile', h, eq(pn[0][0], T_))
        c.prove('driver: column of each saved profile', h0, rng(o, T_), hints=[t])
        c.prove('driver: profile numbers saved', h0 + [rng(o, T_)], feq(pn[1](t), F(no(o))))
        c.prove('driver: sorted by profile number', h + [rng(t, T_), rng(u, t)], le(fl(pn[1](u)).v, fl(pn[1](t)).v), hints=[t, u])
        for k, nm in L2.items():
            r = eqv(I_, s, d[nm], 2)
            if r is None: c.add(f'driver: {nm} saved', 'unknown'); continue
            sh, f = r; x = f(i, t); w = s_where(lt(o, P), U1('old_' + k, i, o), U1('new_' + k, i, ms(sub(o, P))))
            hh = h0 + [rng(o, T_), rng(i, L)]
            c.prove(f'driver: {nm} has one column per profile', h, and_(eq(sh[0], L), eq(sh[1], T_)))
            if k != 'la_mapped_sal': c.prove(f'driver: {nm} in the column of its own profile', hh, feq(x, w)); continue
            w = fl(w); out = or_(lt(w.v, R(30)), lt(R(40), w.v)); x = fl(x)
            c.prove(f'driver: {nm} in the column of its own profile', ground(hh) + [at(D.qf[0], i, o)], and_(not_(x.bad), or_(feq(x, w), and_(x.nan, out))))
            outside(c, D, h, T_)
            E = add(mul(i, T_), o); ds = [eq(fdiv(E, T_), i), eq(mod(E, T_), o)]
            for k2, g in enumerate(ds): c.prove('driver: place of a value in the flattened matrix', [rng(o, T_), le(0, i)], g)
            c.prove(f'driver: {nm} outside 30-40 is missing', ground(hh) + ds + [D.outside(E), rng(E, mul(L, T_)), at(D.qf[0], i, o)], or_(x.nan, and_(le(R(30), x.v), le(x.v, R(40)))))
            c.prove('driver: place of a value in range', [rng(o, T_), rng(i, L)], rng(E, mul(L, T_)))
        for k in SC:
            r = eqv(I_, s, d[k], 1)
            if r is None: c.add(f'driver: {k} saved', 'unknown'); continue
            c.prove(f'driver: {k} in the place of its own profile', h0 + [rng(o, T_)], and_(eq(r[0][0], T_), feq(r[1](t), s_where(lt(o, P), U1('old_' + k, o), U1('new_' + k, ms(sub(o, P)))))))
        # stored profiles stay, missing ones are added once
        if D.mf:
            a, b = c.int('a'), c.int('b')
            dn = lambda q, r: ne(no(q), no(r))
            c.prove('driver: no profile twice', D.mf + D.distinct + [rng(a, T_), rng(b, a)], dn(a, b), hints=[a, b, sub(a, P), sub(b, P), ms(sub(a, P)), ms(sub(b, P))])
            c.prove('driver: every profile of the float has a column', D.mf + [rng(a, D.n)], or_(and_(rng(D.W(a), P), eq(no(D.W(a)), D.PN(a))), and_(rng(D.RK(a), N), eq(no(add(P, D.RK(a))), D.PN(a)))), hints=[a, D.W(a), D.RK(a)])
    c.sat('float and stored data', D.distinct + [le(1, n), le(1, P), le(1, L)])


OWN = ('arguments: levels of the float for the stored data', 'arguments: points used: column of the profile')


def order(x):
    out = {}
    def go(y):
        if y.op == 'bind' and y.data[0] == 'argsort': out[y] = 1
        for z in y.args: go(z)
    go(x); return next(iter(out)) if len(out) == 1 else None


def outside(c, D, h, T_):
    """every value outside 30-40 is in the list of values that become missing: for the value at place e of the flattened matrix"""
    def val(e): return fl(D.x.elt(fdiv(e, T_), mod(e, T_)))
    def g(e): w = val(e); return implies(rng(e, mul(D.L, T_)), or_(D.N(fdiv(e, T_), mod(e, T_)), w.nan, and_(le(R(30), w.v), le(w.v, R(40)))))
    D.outside = g
    e = c.int('place'); t = fresh('t', 'I'); e0 = it(D.b.elt(t, I(0))); w = val(e)
    halves = e0.args[1:] if e0.op == 'ite' else (e0, e0)
    for nm, q, side in (('below', halves[0], lt(w.v, R(30))), ('above', halves[1], lt(R(40), w.v))):
        s = sels(q)
        if len(s) != 1: c.add(f'driver: values {nm} the limit are found', 'unknown', 'list of values'); continue
        s = s[0]; v, n, body = open_(s); rk = bind('sum', v, e, ite(body, I(1), I(0))); r = sub(rk, sub(s.args[2], t)); cnt = bind('sum', v, n, ite(body, I(1), I(0)))
        z = subst(s, {t: r}); found = and_(eq(z, e), rng(rk, cnt)); here = subst(body, {v: e})
        c.prove(f'driver: values {nm} the limit have a place in the list', [rng(e, n), here], found, hints=[e])
        # the terms of the list as plain numbers
        num = {y: fresh('num', 'I') for y in closed([at(D.qf[1], r), found])}; ab = lambda x: treplace(x, num)
        c.prove(f'driver: values {nm} the limit are found', [ab(y) for y in ground(h)] + [ab(at(D.qf[1], r)), side, implies(and_(rng(e, n), here), ab(found))] + [le(0, y) for x, y in num.items() if x.data[0] == 'sum'], ab(g(e)))


def closed(xs):
    out = {}
    def go(y):
        if y.op == 'bind' and y.data[0] in ('sum', 'sel') and not any(n.startswith('#') for n, _ in y.fv): out[y] = 1
        else:
            for z in y.args: go(z)
    for x in xs: go(x)
    return list(out)


def sels(x):
    out = {}
    def go(y):
        if y.op == 'bind' and y.data[0] == 'sel': out[y] = 1
        else:
            for z in y.args: go(z)
    go(x); return list(out)
