"""C22: what update_salinity_mapping gives to each of the functions that select, interpolate and map, and what it stores of
their results at each level; the depths of the casts."""
from con import *
from contracts.driver import Driver, LA as LD, SC as SD, eqv, U1
KEEP = ('arguments:', 'level:', 'driver')


def pick(name): return name.startswith('arguments:') or name.startswith('level:') or 'of its own profile' in name


def depths(c):
    """process_profiles_grid_variables: each cast gets the sea-floor depth at its own position"""
    n, r, w = c.int('n'), c.int('r'), c.int('w'); e = c.int('e')
    U = lambda t, *ix: F(uf(t, [I(x) for x in ix], 'R'))
    cfg = mkdict({})
    box = []
    def topo(I_, a, kw):
        f = I_.func(FE, 'get_topo_grid'); names = [x.arg for x in f.node.args.args]; d = dict(zip(names, a)); d.update(kw)
        lim = [fl(d[k]).v for k in names[:4]]; st = I_.st; box.append((list(st.facts) + list(st.pc), lim, d[names[4]]))
        st.facts += [le(1, r), le(1, w)]
        return tuple(mk(AV([r, w], lambda p, q, t=t: U(t, p, q), 'f')) for t in ('t_elev', 't_x', 't_y'))
    asked = []
    def interp(I_, a, kw):
        st = I_.st; x, y, z = a[:3]; asked.append((list(st.facts) + list(st.pc), I_.av(x), I_.av(y), I_.av(z), a[3] if len(a) > 3 else kw.get('kind', 'linear')))
        return Obj('interp2d', __call__=lambda I2, a, kw: mk(AV([I(1)], lambda q: F(neg(uf('depth_at', [fl(scal(I2, I2.st, a[0])).v, fl(scal(I2, I2.st, a[1])).v], 'R'))), 'f')))
    g = {k: c.arr(k, [n], nan=False) for k in ('grid_lat', 'grid_long', 'grid_dates')}
    lat = [bind('forall', e0, n, and_(le(R(-90), uf('grid_lat', [e0], 'R')), le(uf('grid_lat', [e0], 'R'), R(90)))) for e0 in [fresh('k', 'I')]]
    lon = [bind('forall', e0, n, and_(le(R(0), uf('grid_long', [e0], 'R')), le(uf('grid_long', [e0], 'R'), R(360)))) for e0 in [fresh('k', 'I')]]
    outs = c.run(HE, 'process_profiles_grid_variables', [mkdict(g), cfg], pc=[le(1, n)], facts=lat + lon, over={FE + '.get_topo_grid': topo, 'scipy.interpolate.interp2d': interp})
    lg = uf('grid_long', [e], 'R'); lt_ = ite(lt(R(180), lg), sub(lg, R(360)), lg)
    for v, s in c.returns(outs, 'depths: no error'):
        d = s.content(v.cell); I_ = c.last; h = hy(s); z = I_.avs(s, d['grid_z'])
        c.prove('depths: one per cast', h, eq(z.shape[0], n))
        c.prove('depths: at the position of the cast', h + [rng(e, n)], feq(z.elt(e), F(uf('depth_at', [lt_, uf('grid_lat', [e], 'R')], 'R'))), hints=[e])
        for k in ('grid_lat', 'grid_long', 'grid_dates'):
            a = I_.avs(s, d[k]); c.prove(f'depths: {k} unchanged', h + [rng(e, n)], and_(eq(a.shape[0], n), feq(a.elt(e), U(k, e))), hints=[e])
    for h, (x0, x1, y0, y1), cf in box:
        y = uf('grid_lat', [e], 'R')
        c.prove('depths: sea floor around the casts', h + [rng(e, n)], and_(le(x0, lt_), le(lt_, x1), le(y0, y), le(y, y1)), hints=[e])
        c.add('depths: settings', 'proved' if cf is cfg or getattr(cf, 'cell', 0) == cfg.cell else 'unknown')
    for h, x, y, z, kind in asked:
        p, q = c.int('p'), c.int('q')
        c.prove('depths: linear interpolation', h, B(kind == 'linear'))
        c.prove('depths: longitudes', h + [rng(q, w)], and_(eq(x.shape[0], w), feq(x.elt(q), U('t_x', 0, q))), hints=[q])
        c.prove('depths: latitudes', h + [rng(p, r)], and_(eq(y.shape[0], r), feq(y.elt(p), U('t_y', p, 0))), hints=[p])
        c.prove('depths: sea floor', h + [rng(p, r), rng(q, w)], feq(z.elt(p, q), U('t_elev', p, q)), hints=[p, q])


def sels(x):
    out = {}
    def go(y):
        if y.op == 'bind' and y.data[0] == 'sel': out[y] = 1
        for z in y.args: go(z)
    go(x); return list(out)


HK = ('sal', 'pres', 'long', 'lat', 'dates', 'z')


def level(c):
    """process_profile_hist_variables: the casts with an interpolated salinity, closer in pressure than the limit; every quantity of
    the same cast"""
    L, n, l, t, u, e = [c.int(x) for x in 'L n l t u e'.split()]; dl = c.real('delta')
    S, P_ = (lambda e: U1('isal', l, e)), (lambda e: U1('ipres', l, e)); fp = U1('fpres', l)
    g = {f'grid_{k}': c.arr(f'g_{k}', [n], nan=False) for k in ('long', 'lat', 'dates', 'z')}
    outs = c.run(HE, 'process_profile_hist_variables', [mkdict(g), c.arr('fpres', [L]), c.arr('isal', [L, n]), c.arr('ipres', [L, n]), l, dl], pc=[le(1, L), le(0, n), rng(l, L)])
    ok = lambda e: and_(not_(S(e).nan), not_(P_(e).nan), not_(fp.nan), lt(absr(sub(P_(e).v, fp.v)), fl(dl).v))
    for v, s in c.returns(outs, 'level: no error'):
        d = s.content(v.cell); I_ = c.last; h = hy(s); a = {k: I_.avs(s, d[f'hist_{k}']) for k in HK}
        if any(x.ndim != 2 for x in a.values()): c.add('level: columns', 'unknown'); continue
        m = a['long'].shape[0]
        for k, x in a.items(): c.prove(f'level: {k} is a column', h, and_(eq(x.shape[0], m), eq(x.shape[1], 1)))
        # the cast of row t, from the term of its longitude
        w = fl(a['long'].elt(t, I(0))).v; cast = [y.args[0] for y in ufs(w, 'g_long')]
        if len(cast) != 1: c.add('level: cast of a row', 'unknown'); continue
        cast = cast[0]; at_ = lambda x: subst(cast, {t: x}); h0 = h + [rng(t, m)]
        c.prove('level: a cast of the archive', h0, rng(cast, n), hints=[t])
        c.prove('level: has a salinity and is close in pressure', h0, ok(cast), hints=[t])
        c.prove('level: each cast once, in their order', h + [rng(t, m), rng(u, t)], lt(at_(u), cast), hints=[t, u])
        inner = [y for y in sels(cast) if y.args[2] is t]; outer = [y for y in sels(cast) if y.args[2] is not t]
        if len(inner) == 1 and len(outer) <= 1:
            v2, n2, b2 = open_(inner[0])
            r1 = e
            if outer: v1, n1, b1 = open_(outer[0]); r1 = bind('sum', v1, e, ite(b1, I(1), I(0)))
            r2 = bind('sum', v2, r1, ite(b2, I(1), I(0)))
            hh = h + [rng(e, n), ok(e)]
            if outer:
                back = and_(eq(subst(outer[0], {outer[0].args[2]: r1}) if outer[0].args[2].op == 'var' else bind('sel', v1, n1, b1, r1, sort='I'), e), rng(r1, n2))
                c.prove('level: casts with a salinity are all considered', hh, back, hints=[e])
                y = c.int('y'); hh += [back]
                v, n_, b_ = open_(inner[0])
                c.prove('level: and those close in pressure are kept', hh + [eq(y, r1)], subst(b2, {v2: y}), hints=[e, y])
                hh += [eq(y, r1), subst(b2, {v2: y})]; r2 = bind('sum', v2, y, ite(b2, I(1), I(0)))
                c.prove('level: kept casts have a row', [rng(y, n2), subst(b2, {v2: y})], and_(eq(bind('sel', v2, n2, b2, r2, sort='I'), y), rng(r2, m)), hints=[y])
            else: c.prove('level: every such cast has a row', hh, and_(eq(at_(r2), e), rng(r2, m)), hints=[e])
        for k, x in a.items():
            z = S(cast) if k == 'sal' else P_(cast) if k == 'pres' else U1('g_' + k, cast) if False else F(uf('g_' + k, [cast], 'R'))
            c.prove(f'level: {k} of that cast', h0 + [rng(cast, n), ok(cast)], feq(x.elt(t, I(0)), z), hints=[t])


def outliers(c):
    """remove_statical_outliers: the casts that are not outliers stay, with all their quantities"""
    q, m, t, u, e, b = [c.int(x) for x in 'q m t u e b'.split()]
    o = lambda t: uf('outlier', [t], 'I'); x = fresh('k', 'I')
    hd = {f'hist_{k}': c.arr(f'h_{k}', [q, 1], nan=False) for k in HK}
    isout = lambda e: uf('is_outlier', [e], 'B'); first = lambda e: uf('place', [e], 'I')
    y = fresh('k', 'I')
    fs = [bind('forall', x, m, and_(rng(o(x), q), isout(o(x)))), bind('forall', y, q, implies(isout(y), and_(rng(first(y), m), eq(o(first(y)), y))))]
    outs = c.run(HE, 'remove_statical_outliers', [c.arr('outlier', [m], 'i'), mkdict(hd)], pc=[le(0, m), le(1, q)], facts=fs)
    for v, s in c.returns(outs, 'outliers: no error'):
        d = s.content(v.cell); I_ = c.last; h = hy(s); a = {k: I_.avs(s, d[f'hist_{k}']) for k in HK}
        el = lambda k, t: fl(a[k].elt(*([t] + [I(0)] * (a[k].ndim - 1))))
        w = el('long', t).v; cast = {y.args[0]: 1 for y in ufs(w, 'h_long')}
        n = a['long'].shape[0]
        for k in HK: c.prove(f'outliers: {k} has one row per cast', h, and_(eq(a[k].shape[0], n), *[eq(z, 1) for z in a[k].shape[1:]]))
        for k in ('long', 'lat', 'dates', 'z'): c.prove(f'outliers: {k} is a column', h, B(a[k].ndim == 2))
        if len(cast) != 1: c.add('outliers: cast of a row', 'unknown', str(w)); continue
        cast = list(cast)[0]; at_ = lambda x: subst(cast, {t: x}); h0 = h + [rng(t, n)]
        c.prove('outliers: a cast', h0, rng(cast, q), hints=[t])
        c.prove('outliers: none stays', h0 + [rng(cast, q)], not_(isout(cast)), hints=[t, first(cast)])
        c.prove('outliers: order unchanged', h + [rng(t, n), rng(u, t)], lt(at_(u), cast), hints=[t, u])
        ss = sels(cast)
        r = e
        if ss: v1, n1, b1 = open_(ss[0]); r = bind('sum', v1, e, ite(b1, I(1), I(0)))
        c.prove('outliers: every other cast stays', h + [rng(e, q), not_(isout(e))], and_(eq(at_(r), e), rng(r, n)), hints=[e])
        for k in HK: c.prove(f'outliers: {k} of the same cast', h0 + [rng(cast, q)], feq(el(k, t), F(uf('h_' + k, [cast, I(0)], 'R'))), hints=[t])


def ufs(x, nm):
    out = {}
    def go(y):
        if y.op == 'uf' and y.data == nm: out[y] = 1
        else:
            for z in y.args: go(z)
    go(x); return list(out)


def drive(c):
    D = Driver(c, pick); outs = D.go()
    for kd, v, s in outs:
        if kd != 'return': c.prove(f'driver: no {v}', hy(s), FALSE)
    if not [1 for kd, _, _ in outs if kd == 'return']: c.add('driver: some outcome', 'unknown')
    c.sat('float and stored data', D.distinct + [le(1, D.n), le(1, D.P), le(1, D.L)])


def obligations(c):
    c.ob('depths', lambda: depths(c)); c.ob('level', lambda: level(c)); c.ob('outliers', lambda: outliers(c))
    c.ob('driver', lambda: drive(c))
