"""Contract of update_salinity_mapping: the loop over the missing profiles, the loop over the levels and the quality check by
invariants; every callee by its contract (values it returns depend only on what the contract says), with the arguments it is
given as obligations of the caller."""
import ast
from con import *
from loops import Inv
import loops
LA = dict(la_ptmp='la_ptmp', la_mapped_sal='la_mapped_sal', la_map_sal_errors='la_mapsalerrors', la_noise_sal='la_noise_sal', la_signal_sal='la_signal_sal')
SC = dict(scale_long_large='MAPSCALE_LONGITUDE_LARGE', scale_lat_large='MAPSCALE_LATITUDE_LARGE', scale_long_small='MAPSCALE_LONGITUDE_SMALL', scale_lat_small='MAPSCALE_LATITUDE_SMALL',
          scale_phi_large='MAPSCALE_PHI_LARGE', scale_phi_small='MAPSCALE_PHI_SMALL', scale_age_large='MAPSCALE_AGE_LARGE', scale_age_small='MAPSCALE_AGE_SMALL',
          use_pv='MAP_USE_PV', use_saf='MAP_USE_SAF', p_delta='MAP_P_DELTA', p_exclude='MAP_P_EXCLUDE')


def k_(): return fresh('k', 'I')
def U1(nm, *ix): return F(uf(nm, [I(x) for x in ix], 'R'), uf(nm + '.nan', [I(x) for x in ix], 'B'))
def V1(nm, *ix): return F(uf(nm, [I(x) for x in ix], 'R'))
def named(x): return x.func.id if isinstance(x.func, ast.Name) else getattr(x.func, 'attr', '')
def calls(s, I_=None):
    """names of the functions called in the body of a loop, through functions of its own module too"""
    out, todo = set(), {named(x) for b in s.body for x in ast.walk(b) if isinstance(x, ast.Call)}
    while todo:
        f = todo.pop()
        if f in out: continue
        out.add(f)
        if I_ is not None and CA + '.' + f not in I_.over:
            try: g = I_.func(CA, f)
            except Exception: continue
            todo |= {named(x) for x in ast.walk(g.node) if isinstance(x, ast.Call)}
    return out


class Token:
    def __init__(self, kind, j=None): self.kind, self.j = kind, j


class Driver:
    def __init__(self, c, pick, flat=True):
        self.flat = flat                                # casts without outliers in both of the shapes they may have
        self.c = c; self.pick = pick                    # pick(name): is this obligation part of the property
        self.n, self.L, self.P, self.q = [c.int(x) for x in 'n L P q'.split()]
        self.j = None; self.tag = None; self.reqs = []; self.seen = {}
        self.cfg = {v: c.real(v) for v in SC.values()}; self.cfg['MAP_USE_PV'] = c.int('use_pv'); self.cfg['MAP_USE_SAF'] = c.int('use_saf'); self.cfg['CONFIG_MAX_CASTS'] = c.int('max_casts')

    # ---- the world
    def PN(self, j): return uf('pno', [I(0), j], 'R')
    def ON(self, j): return uf('ono', [j], 'R')
    def S0(self, j): return uf('n_located', [j], 'I')
    def S(self, j): return uf('n_casts', [j], 'I')
    def S2(self, j): return uf('n_front', [j], 'I')
    def Q(self, l, j): return uf('n_level', [l, j], 'I')
    def Q2(self, l, j): return uf('n_kept', [l, j], 'I')
    def src(self, k, *ix): return U1(k, *ix)
    def lt_(self, j):                                   # longitude in -180..180
        v = self.src('LONG', 0, j).v; return ite(lt(R(180), v), sub(v, R(360)), v)
    def front(self, j): return and_(eq(self.cfg['MAP_USE_SAF'], 1), lt(5, self.S2(j)))
    def mapped(self, l, j):
        h = fresh('k', 'I'); s, p = self.src('SAL', l, j), self.src('PRES', l, j)
        some = not_(bind('forall', h, self.L, self.src('PRES', h, j).nan))
        return and_(not_(self.src('LONG', 0, j).nan), not_(self.src('LAT', 0, j).nan), some, lt(0, self.S0(j)), not_(s.nan), not_(p.nan), le(self.cfg['MAP_P_EXCLUDE'].v, p.v), lt(5, self.Q(l, j)))
    def any_mapped(self, j, upto=None):
        h = k_(); return not_(bind('forall', h, self.L if upto is None else upto, not_(self.mapped(h, j))))
    def raw(self, e, l, j): return V1('hist_sal', e, l, j)
    def clean(self, nm, e, l, j): return V1('kept_' + nm, e, l, j)
    def noise(self, l, j): return V1('noise', l, j)
    def signal(self, w, l, j): return V1('signal_' + w, l, j)
    def big(self, l, j): return V1('large_scale', l, j)
    def small(self, l, j): return V1('small_scale', l, j)
    def ebig(self, l, j): return V1('large_error', l, j)
    def esmall(self, l, j): return V1('small_error', l, j)
    def fitted(self, e, l, j): return V1('large_at_casts', e, l, j)
    def value(self, key, l, j):
        """what a new column holds: names for formula() and given()"""
        return U1('new_' + key, l, j)
    def setting(self, key, j): return U1('new_' + key, j)
    def formula(self, key, l, j):
        m = self.mapped(l, j)
        if key == 'la_ptmp': x = self.src('PTMP', l, j)
        elif key == 'la_mapped_sal': x = s_add(self.big(l, j), self.small(l, j))
        elif key == 'la_noise_sal': x = self.noise(l, j)
        elif key == 'la_signal_sal': x = self.signal('clean', l, j)
        else: x = s_sqrt(s_add(s_mul(self.ebig(l, j), self.ebig(l, j)), s_mul(self.esmall(l, j), self.esmall(l, j))))
        return F(x.v, or_(not_(m), x.nan))
    def given(self, key, j): return F(fl(self.cfg[SC[key]]).v, not_(self.any_mapped(j)))

    # ---- obligations of the caller
    def req(self, name, goal):
        name = 'arguments: ' + name
        if not self.pick(name): return
        if goal is None: return self.c.add(name, 'unknown', 'not the array that the contract describes')
        st = self.I_.st
        self.reqs.append((self.tag, name, list(st.facts) + list(st.pc), goal))
    def flush(self):
        done = set()
        for _, name, h, g in self.reqs:
            key = (name, g, tuple(h))
            if key in done: continue
            done.add(key); self.c.prove(name, h, g)
    def same(self, name, a, shape, e, nan=True):
        """array a has this shape and these elements"""
        I_ = self.I_
        if not isinstance(a, Arr): return self.req(name, None)
        av = I_.av(a)
        if av.ndim != len(shape): return self.req(name, None)
        ix = [k_() for _ in shape]
        g = and_(*[eq(x, y) for x, y in zip(av.shape, shape)])
        b = feq(av.elt(*ix), e(*ix))
        self.req(name, and_(g, self.all(ix, shape, b)))
    def all(self, ix, shape, b):
        for x, m in reversed(list(zip(ix, shape))): b = bind('forall', x, m, b)
        return b
    def num(self, name, x, e):
        x = scal(self.I_, self.I_.st, x)
        self.req(name, feq(x, e) if isnum(x) else None)
    def args(self, mod, fn, a, kw):
        f = self.I_.func(mod, fn); names = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        d = dict(zip(names, a)); d.update(kw); return [d.get(x) for x in names]

    # ---- callee contracts
    def overrides(self):
        c = self.c; n, L, P = self.n, self.L, self.P
        one = lambda x: mk(AV([I(1)], lambda e: x, 'f'))

        def load(I_, a, kw):
            if a[0] == 'S/D/F.mat': return mkdict(self.source)
            if a[0] == 'K/boxes.mat': return Token('boxes')
            raise Unsupported(f'file {a[0]}')
        def stored(I_, a, kw):
            a = self.args(HE, 'load_varibales_from_file', a, kw)
            if a[0] != 'M/D/map_F.mat': raise Unsupported(f'file {a[0]}')
            self.num('levels of the float for the stored data', a[1], L)
            d = {k: c.arr('old_' + k, [L, P]) for k in LA}
            d.update({k: mkseq(SeqV(n=P, elt=lambda e, k=k: U1('old_' + k, e))) for k in SC})
            d['la_profile_no'] = mk(AV([P], lambda e: F(self.ON(e)), 'f')); d['selected_hist'] = c.arr('old_sel', [self.q, I(3)], nan=False); d['profile_index'] = P
            r = self.data = mkdict(d); return r
        def topo(I_, a, kw):
            j = self.j; lo0, lo1, la0, la1, cf = self.args(FE, 'get_topo_grid', a, kw); x, y = self.lt_(j), self.src('LAT', 0, j).v
            self.req('sea floor around the float', and_(le(fl(lo0).v, x), le(x, fl(lo1).v), le(fl(la0).v, y), le(y, fl(la1).v)))
            r, w = uf('topo_rows', [j], 'I'), uf('topo_cols', [j], 'I'); I_.st.facts += [le(1, r), le(1, w)]
            return tuple(mk(AV([r, w], lambda p, q, t=t: V1(t, p, q, j), 'f')) for t in ('t_elev', 't_x', 't_y'))
        def interp(I_, a, kw):
            j = self.j; x, y, z = a[:3]; r, w = uf('topo_rows', [j], 'I'), uf('topo_cols', [j], 'I')
            self.same('longitudes of the sea floor', x, [w], lambda q: V1('t_x', 0, q, j)); self.same('latitudes of the sea floor', y, [r], lambda p: V1('t_y', p, 0, j)); self.same('sea floor', z, [r, w], lambda p, q: V1('t_elev', p, q, j))
            if (a[3] if len(a) > 3 else kw.get('kind', 'linear')) != 'linear': self.req('linear interpolation', None)
            def at_(I2, a, b):
                self.num('sea floor at the longitude of the float', a, F(self.lt_(j))); self.num('sea floor at the latitude of the float', b, self.src('LAT', 0, j))
                return one(F(neg(uf('depth', [j], 'R'))))
            return Obj('interp2d', __call__=lambda I2, a, kw: at_(I2, *a, **kw))
        def boxes(I_, a, kw):
            j = self.j; lo, la, b = self.args(FND, 'find_25boxes', a, kw)
            self.num('boxes around the longitude of the float', lo, self.src('LONG', 0, j)); self.num('boxes around the latitude of the float', la, self.src('LAT', 0, j))
            self.req('box table', B(isinstance(b, Token) and b.kind == 'boxes'))
            return Token('wmo', j)
        def wmo(t, what): self.req(f'boxes of the float ({what})', B(isinstance(t, Token) and t.kind == 'wmo' and t.j is self.j))
        def locations(I_, a, kw):
            j = self.j; b, nm, cf = self.args(FE, 'get_region_hist_locations', a, kw); wmo(b, 'positions'); self.req('name of the float (positions)', B(nm == 'F'))
            I_.st.facts.append(le(0, self.S0(j)))
            return tuple(mk(AV([self.S0(j)], lambda e, t=t: V1(t, e, j), 'f')) for t in ('l_lat', 'l_long', 'l_date'))
        def depths(I_, a, kw):
            j = self.j; d, cf = self.args(HE, 'process_profiles_grid_variables', a, kw)
            D = I_.dct(d); lo, la = I_.av(D['grid_long']), I_.av(D['grid_lat'])
            z = mk(AV([lo.shape[0]], lambda e: F(uf('depth_at', [fl(lo.elt(e)).v, fl(la.elt(e)).v], 'R')), 'f'))
            I_.st.heap[d.cell] = {**D, 'grid_z': z, 'grid_x': Token('x'), 'grid_y': Token('y'), 'grid_elev': Token('e')}
            return d
        def near(name, x, n, e):
            """x is a longitude of the float, within 180 of the mean of the casts"""
            j = self.j; x = scal(I_, I_.st, x)
            import npm
            m = fl(scal(I_, I_.st, npm.native(I_, 'np.nanmean', [mk(AV([n], e, 'f'))], {})))
            x = fl(x); d = div(sub(x.v, self.src('LONG', 0, j).v), R(360))
            self.req(name, and_(not_(x.nan), not_(x.bad), eq(d, toreal(floor(d))), le(absr(sub(m.v, x.v)), R(180))))
        I_ = self.I_
        def best(I_, a, kw):
            j = self.j; a = self.args(FND, 'find_besthist', a, kw); s = self.S0(j)
            for nm, x, t in (('latitudes', a[0], 'l_lat'), ('longitudes', a[1], 'l_long'), ('dates', a[2], 'l_date')): self.same(f'selection: {nm} of the casts', x, [s], lambda e, t=t: V1(t, e, j))
            self.same('selection: depths of the casts', a[3], [s], lambda e: F(uf('depth_at', [V1('l_long', e, j).v, V1('l_lat', e, j).v], 'R')))
            self.num('selection: latitude of the float', a[4], self.src('LAT', 0, j)); near('selection: longitude of the float on the side of the casts', a[5], s, lambda e: V1('l_long', e, j))
            self.num('selection: date of the float', a[6], self.src('DATES', 0, j)); self.num('selection: depth of the float', a[7], F(uf('depth', [j], 'R')))
            for nm, x, k in zip(('lat large', 'lat small', 'long large', 'long small', 'phi large', 'phi small', 'age large', 'age small'), a[8:16], ('scale_lat_large', 'scale_lat_small', 'scale_long_large', 'scale_long_small', 'scale_phi_large', 'scale_phi_small', 'scale_age_large', 'scale_age_small')):
                self.num(f'selection: {nm}', x, self.cfg[SC[k]])
            self.num('selection: vorticity option', a[16], self.cfg['MAP_USE_PV']); self.num('selection: number of casts', a[17], self.cfg['CONFIG_MAX_CASTS'])
            m = uf('n_chosen', [j], 'I'); I_.st.facts.append(le(1, m))
            return mk(AV([m], lambda e: uf('chosen', [e, j], 'I'), 'i'))
        def region(I_, a, kw):
            j = self.j; b, nm, cf, ix, pr = self.args(FE, 'get_region_data', a, kw); wmo(b, 'casts'); self.req('name of the float (casts)', B(nm == 'F'))
            self.same('chosen casts', ix, [uf('n_chosen', [j], 'I')], lambda e: uf('chosen', [e, j], 'I')); self.same('casts down to the pressures of the float', pr, [L], lambda l: self.src('PRES', l, j))
            g, s = uf('n_rows', [j], 'I'), self.S(j); I_.st.facts += [le(1, g), le(1, s)]
            d = {f'grid_{t}': mk(AV([g, s], lambda e, f, t=t: U1('g_' + t, e, f, j), 'f')) for t in ('sal', 'ptmp', 'pres')}
            d.update({f'grid_{t}': mk(AV([s], lambda e, t=t: V1('g_' + t, e, j), 'f')) for t in ('lat', 'long', 'dates')})
            return mkdict(d)
        KEYS2, KEYS1 = ('sal', 'ptmp', 'pres'), ('lat', 'long', 'dates', 'z')
        def base(t, j):
            if t in KEYS2: return lambda e, f: U1('g_' + t, e, f, j)
            if t == 'z': return lambda e: F(uf('depth_at', [V1('g_long', e, j).v, V1('g_lat', e, j).v], 'R'))
            return lambda e: V1('g_' + t, e, j)
        def saf(I_, a, kw):
            j = self.j; cf, g, f = self.args(FE, 'frontal_constraint_saf', a, kw); G, Fd = I_.dct(g), I_.dct(f); r, s = uf('n_rows', [j], 'I'), self.S(j)
            for t in KEYS2: self.same(f'front: {t} of the casts', G[f'grid_{t}'], [r, s], base(t, j))
            for t in KEYS1: self.same(f'front: {t} of the casts', G[f'grid_{t}'], [s], base(t, j))
            self.num('front: latitude of the float', Fd['float_lat'], self.src('LAT', 0, j))
            for k, t in (('float_pres', 'PRES'), ('float_tmp', 'TEMP'), ('float_sal', 'SAL')): self.same(f'front: {k}', Fd[k], [L], lambda l, t=t: self.src(t, l, j))
            s2 = self.S2(j); I_.st.facts += [le(0, s2), le(s2, s)]
            d = {f'grid_{t}': mk(AV([r, s2], lambda e, f, t=t: U1('f_' + t, e, f, j), 'f')) for t in KEYS2}
            d.update({f'grid_{t}': mk(AV([s2], lambda e, t=t: V1('f_' + t, e, j), 'f')) for t in KEYS1})
            return mkdict(d)
        def used(t, j):
            """the casts that are used, after the front separation"""
            w = self.front(j); b = base(t, j)
            if t in KEYS2: return lambda e, f: s_where(w, U1('f_' + t, e, f, j), b(e, f))
            return lambda e: s_where(w, V1('f_' + t, e, j), b(e))
        def nused(j): return ite(self.front(j), self.S2(j), self.S(j))
        def climat(I_, a, kw):
            j = self.j; a = self.args(WR, 'interp_climatology', a, kw); r = uf('n_rows', [j], 'I')
            for t, x in zip(('sal', 'ptmp', 'pres'), a[:3]): self.same(f'interpolation: {t} of the casts', x, [r, nused(j)], used(t, j))
            for t, x in zip(('SAL', 'PTMP', 'PRES'), a[3:6]): self.same(f'interpolation: {t} of the float', x, [L], lambda l, t=t: self.src(t, l, j))
            s = nused(j)
            return tuple(mk(AV([L, s], lambda e, f, t=t: U1('i_' + t, e, f, j), 'f')) for t in ('sal', 'pres'))
        HK = ('sal', 'pres', 'long', 'lat', 'dates', 'z')
        def hist(I_, a, kw):
            j = self.j; g, p, si, pi, l, dl = self.args(HE, 'process_profile_hist_variables', a, kw); G = I_.dct(g)
            for t in KEYS1: self.same(f'level: {t} of the casts', G[f'grid_{t}'], [nused(j)], used(t, j))
            self.same('level: pressures of the float', p, [L], lambda x: self.src('PRES', x, j))
            for t, x in (('sal', si), ('pres', pi)): self.same(f'level: interpolated {t}', x, [L, nused(j)], lambda e, f, t=t: U1('i_' + t, e, f, j))
            self.num('level: number of the level', l, self.l); self.num('level: pressure difference', dl, self.cfg['MAP_P_DELTA'])
            q = self.Q(self.l, j); I_.st.facts.append(le(0, q)); l = self.l
            return mkdict({f'hist_{t}': mk(AV([q, I(1)], lambda e, f, t=t: V1('hist_' + t, e, l, j), 'f')) for t in HK})
        def outliers(I_, a, kw):
            j, l = self.j, self.l; o, h = self.args(HE, 'remove_statical_outliers', a, kw); H = I_.dct(h); q = self.Q(l, j)
            import npm
            raw = mk(AV([q, I(1)], lambda e, f: self.raw(e, l, j), 'f')); nat = lambda n, *a: npm.native(I_, n, list(a), {}); mean = nat('np.mean', raw)
            far = npm.compare(I_, ast.Gt(), npm.binop(I_, ast.Div(), nat('np.abs', npm.binop(I_, ast.Sub(), raw, mean)), nat('np.sqrt', self.signal('raw', l, j))), I(3))
            w = I_.av(nat('np.argwhere', far))
            av, t = I_.av(o), fresh('t', 'I'); x, y = it(av.elt(t)) if av.ndim == 1 else None, it(w.elt(t, I(0)))
            m = av.shape[0]
            if isinstance(x, T) and all(z.op == 'bind' and z.data[0] == 'sel' and z.args[2] is t and z.args[0] is q for z in (x, y)) and m.op == 'bind' and m.data[0] == 'sum' and m.args[0] is q:
                (v1, _, b1), (v2, _, b2), (v3, _, b3) = open_(x), open_(y), open_(m); e = k_()
                self.req('outliers: all those that satisfy the condition', bind('forall', e, q, eq(subst(b3, {v3: e}), ite(subst(b2, {v2: e}), I(1), I(0)))))
                self.req('outliers: more than three deviations from the mean', bind('forall', e, q, eq(subst(b1, {v1: e}), subst(b2, {v2: e}))))
            else: self.same('outliers: more than three deviations from the mean', o, [w.shape[0]], lambda t: w.elt(t, I(0)))
            for t in HK: self.same(f'outliers: {t} of the casts', H[f'hist_{t}'], [q, I(1)], lambda e, f, t=t: V1('hist_' + t, e, l, j))
            q2 = self.Q2(l, j); I_.st.facts.append(le(1, q2))
            d = {f'hist_{t}': mk(AV([q2, I(1)], lambda e, f, t=t: self.clean(t, e, l, j), 'f')) for t in HK}
            if self.flat and I_.branch(lt(0, I_.av(o).shape[0])):         # np.delete flattens these two
                for t in ('sal', 'pres'): d[f'hist_{t}'] = mk(AV([q2], lambda e, t=t: self.clean(t, e, l, j), 'f'))
            I_.st.heap[h.cell] = d
            return h
        def noise(I_, a, kw):
            j, l = self.j, self.l; a = self.args(ST, 'noise_variance', a, kw); q = self.Q2(l, j)
            for t, x in zip(('sal', 'lat', 'long'), a): self.same(f'noise: {t}', x, [q], lambda e, t=t: self.clean(t, e, l, j))
            return self.noise(l, j)
        def which(x):
            a = self.I_.av(x); e = k_(); j, l = self.j, self.l
            if a.ndim == 2: v = a.elt(e, I(0))
            elif a.ndim == 1: v = a.elt(e)
            else: return None
            v = fl(v)
            for nm, w, m in (('raw', self.raw(e, l, j), self.Q(l, j)), ('clean', self.clean('sal', e, l, j), self.Q2(l, j)), ('residual', s_sub(self.clean('sal', e, l, j), self.fitted(e, l, j)), self.Q2(l, j))):
                if v == w and a.shape[0] is m and (a.ndim == 1 or a.shape[1] is I(1)): return nm
            return None
        def signal(I_, a, kw):
            x, = self.args(ST, 'signal_variance', a, kw); w = which(x)
            if w is None: return F(fresh('other_signal', 'R'))
            return self.signal(w, self.l, self.j)
        def grid(I_, a, kw):
            j, l = self.j, self.l; a = self.args(WR, 'map_data_grid', a, kw); w = which(a[0])
            if w not in ('clean', 'residual'):
                self.req('mapping of the salinities of the casts or of their residuals', None)
                return tuple(one(F(fresh('other', 'R'))) for _ in range(2)) + (mk(AV([self.Q2(l, j)], lambda e: V1('other', e, l, j), 'f')),)
            nm = {'clean': 'large scales', 'residual': 'small scales'}[w]; z = w == 'clean'; q2 = self.Q2(l, j); sz = 'large' if z else 'small'
            g = I_.av(a[1])
            if g.ndim != 2: self.req(f'{nm}: position of the float', None)
            else:
                self.req(f'{nm}: position of the float', and_(eq(g.shape[0], 1), eq(g.shape[1], 4), feq(g.elt(I(0), I(0)), self.src('LAT', 0, j)), feq(g.elt(I(0), I(2)), self.src('DATES', 0, j)), feq(g.elt(I(0), I(3)), F(uf('depth', [j], 'R')))))
                near(f'{nm}: longitude of the float on the side of the casts', g.elt(I(0), I(1)), nused(j), used('long', j))
            pos = ('lat', 'long', 'dates', 'z')
            d = I_.av(a[2])
            if d.ndim != 2: self.req(f'{nm}: positions of the casts', None)
            else:
                e = k_(); self.req(f'{nm}: positions of the casts', and_(eq(d.shape[0], q2), eq(d.shape[1], 4), bind('forall', e, q2, and_(*[feq(d.elt(e, I(r)), self.clean(t, e, l, j)) for r, t in enumerate(pos)]))))
            for k, x in (('long', a[3]), ('lat', a[4]), ('age', a[5]), ('phi', a[8])): self.num(f'{nm}: {k} scale', x, self.cfg[SC[f'scale_{k}_{sz}']])
            self.num(f'{nm}: signal variance', a[6], self.signal(w, l, j)); self.num(f'{nm}: noise variance', a[7], self.noise(l, j)); self.num(f'{nm}: vorticity option', a[9], self.cfg['MAP_USE_PV'])
            v, r = (self.big, self.ebig) if z else (self.small, self.esmall)
            return (one(v(l, j)), one(r(l, j)), mk(AV([q2], lambda e: self.fitted(e, l, j) if z else V1('small_at_casts', e, l, j), 'f')))
        def selected(I_, a, kw):
            d, h, pi = self.args(HE, 'selected_historical_points', a, kw); H = I_.dct(h); j, l = self.j, self.l
            self.num('points used: column of the profile', pi, add(self.P, self.k))
            for t in ('lat', 'long'): self.same(f'points used: {t}', H[f'hist_{t}'], [self.Q2(l, j), I(1)], lambda e, f, t=t: self.clean(t, e, l, j))
            u = fresh('sel', 'I').data[0]; m = uf(u + 'n', [], 'I'); I_.st.facts.append(le(0, m))
            D = I_.dct(d); I_.st.heap[d.cell] = {**D, 'selected_hist': mk(AV([m, I(3)], lambda e, f: V1(u, e, f), 'f'))}
            return d
        def save(I_, a, kw):
            if a[0] != 'M/D/map_F.mat' or kw: raise Unsupported(f'save to {a[0]}')
            if I_.dct(self.out): raise Unsupported('saved twice')
            I_.st.heap[self.out.cell] = dict(I_.dct(a[1]))
        return {'scipy.io.loadmat': load, 'scipy.io.savemat': save, HE + '.load_varibales_from_file': stored, FE + '.get_topo_grid': topo, 'scipy.interpolate.interp2d': interp, FND + '.find_25boxes': boxes,
                FE + '.get_region_hist_locations': locations, HE + '.process_profiles_grid_variables': depths, FND + '.find_besthist': best, FE + '.get_region_data': region, FE + '.frontal_constraint_saf': saf,
                WR + '.interp_climatology': climat, HE + '.process_profile_hist_variables': hist, HE + '.remove_statical_outliers': outliers, ST + '.noise_variance': noise, ST + '.signal_variance': signal,
                WR + '.map_data_grid': grid, HE + '.selected_historical_points': selected, 'os.path.abspath': lambda I_, a, kw: a[0],
                'builtins.sorted': lambda I_, a, kw: a[0], 'os.path.isdir': lambda I_, a, kw: TRUE}

    # ---- running
    def go(self):
        c = self.c; n, L, P = self.n, self.L, self.P
        I_ = self.I_ = c.interp()
        K = ('SAL', 'TEMP', 'PTMP', 'PRES')
        self.source = {k: c.arr(k, [L, n]) for k in K}
        self.source.update({k: c.arr(k, [1, n], nan=True) for k in ('LAT', 'LONG', 'DATES')}); self.source['PROFILE_NO'] = c.arr('pno', [1, n], nan=False)
        cfg = dict(self.cfg, FLOAT_SOURCE_DIRECTORY='S', FLOAT_SOURCE_POSTFIX='.mat', FLOAT_MAPPED_DIRECTORY='M', FLOAT_MAPPED_PREFIX='map_', FLOAT_MAPPED_POSTFIX='.mat', CONFIG_DIRECTORY='K', CONFIG_WMO_BOXES='boxes.mat')
        self.out = mkdict({})
        on = lambda a: uf('is_stored', [a], 'B')
        a, b, d, e = k_(), k_(), k_(), k_()
        pc = [le(1, n), le(0, P), le(1, L), le(0, self.q)]
        self.distinct = [bind('forall', a, n, bind('forall', b, a, ne(self.PN(a), self.PN(b)))), bind('forall', d, P, bind('forall', e, d, ne(self.ON(d), self.ON(e))))]
        outs = c.run(CA, 'update_salinity_mapping', ['D', mkdict(cfg), 'F'], pc=pc, over=self.overrides(), interp=I_, invs=[Missing(self), Profiles(self), Levels(self), Quality(self)])
        self.flush()
        return outs

    def MS(self, e):
        return self.ms(e)


def eqv(I_, st, v, nd):
    if isinstance(v, Lst) and nd == 1: q = st.content(v.cell); return [q.n], q.elt
    if not isinstance(v, Arr): return None
    a = I_.avs(st, v)
    return (a.shape, a.elt) if a.ndim == nd else None


class Missing(Inv):
    """after k profiles of the float: those of them that are not stored, in order"""
    fn = CA + '.update_salinity_mapping'
    def __init__(self, D): self.D = D
    def var(self, s):
        x = [y.func.value.id for b in s.body for y in ast.walk(b) if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr == 'append' and isinstance(y.func.value, ast.Name)]
        return x[0] if len(set(x)) == 1 else None
    def applies(self, I_, s, n, st):
        v = self.var(s)
        if not hasattr(self.D, 'data') or v is None or 'map_data_grid' in calls(s, I_) or not isinstance(st.env.get(v), Lst): return False
        self.v = v; return True
    def covers(self, I_, st0, key): return key == ('cell', st0.env[self.v].cell)
    def stored(self, i):
        d = k_(); return not_(bind('forall', d, self.D.P, ne(self.D.ON(d), self.D.PN(i))))
    def facts(self, k, N, m, exists):
        D = self.D; a, b, d, e, f, i = [k_() for _ in range(6)]
        return [('indices', bind('forall', a, N, rng(m(a), k))), ('not stored', bind('forall', b, N, bind('forall', d, D.P, ne(D.ON(d), D.PN(m(b)))))),
                ('ascending', bind('forall', e, N, bind('forall', f, e, lt(m(f), m(e))))), ('all of them', bind('forall', i, k, exists(i)))]
    def state(self, I_, st0, st, k):
        D = self.D; u = fresh('ms', 'I').data[0]; N = uf(u + 'n', [], 'I'); m = lambda e: uf(u, [e], 'I')
        st.heap[st0.env[self.v].cell] = SeqV(n=N, elt=m)
        W = lambda i: uf(u + 'w', [i], 'I'); RK = lambda i: uf(u + 'r', [i], 'I'); self.RK, self.m, self.N, self.W = RK, m, N, W
        fs = [f for _, f in self.facts(k, N, m, lambda i: or_(and_(rng(W(i), D.P), eq(D.ON(W(i)), D.PN(i))), and_(rng(RK(i), N), eq(m(RK(i)), i))))]
        D.ms, D.nm, D.mf, D.W, D.RK = m, N, fs, W, RK
        i = k.args[0] if False else k
        self.hints = [I(0), N, RK(k)]
        return [le(0, N)] + (fs if k.op == 'var' and k is not D.n else [])
    def claims(self, I_, st0, st, k):
        D = self.D; sv = st.content(st0.env[self.v].cell); N, m = sv.n, sv.elt if not (sv.items is not None and len(sv.items) == 0) else (lambda e: I(0))
        e = k_(); out = []
        for nm, g in self.facts(k, N, m, lambda i: or_(self.stored(i), not_(bind('forall', e, N, ne(m(e), i))))):
            if nm == 'all of them' and k is not I(0):
                i = self.D.c.int('ii'); v, n_, b = open_(g); g = implies(rng(i, k), subst(b, {v: i}))
                out.append(('missing profiles: ' + nm, g, [], [], [i, self.RK(i), self.W(i), sub(N, 1), self.N])); continue
            out.append(('missing profiles: ' + nm, g))
        return [x for x in out if D.pick(x[0])]


class Profiles(Inv):
    """after k of the missing profiles: the stored columns, then one column per profile done"""
    fn = CA + '.update_salinity_mapping'
    def __init__(self, D): self.D = D
    def applies(self, I_, s, n, st): return 'map_data_grid' in calls(s, I_) and 'get_float_data' in calls(s, I_)
    def covers(self, I_, st0, key): return key == ('env', 'profile_index') or (key[0] == 'dict' and key[1] == self.D.data.cell and key[2] in [*LA, *SC, 'la_profile_no', 'selected_hist'])
    def state(self, I_, st0, st, k):
        D = self.D; P, L = D.P, D.L
        st.env['profile_index'] = add(P, k)
        D.j = D.ms(k); D.k = k; D.tag = None
        if k.op == 'var': D.reqs = []
        d = dict(st.content(D.data.cell))
        for key in LA: d[key] = mk(AV([L, add(P, k)], lambda i, q, key=key: s_where(lt(q, P), U1('old_' + key, i, q), D.value(key, i, D.ms(sub(q, P)))), 'f'))
        for key in SC: d[key] = mkseq(SeqV(n=add(P, k), elt=lambda q, key=key: s_where(lt(q, P), U1('old_' + key, q), D.setting(key, D.ms(sub(q, P))))))
        d['la_profile_no'] = mk(AV([add(P, k)], lambda q: F(ite(lt(q, P), D.ON(q), D.PN(D.ms(sub(q, P))))), 'f'))
        u = fresh('sl', 'I').data[0]; m = uf(u + 'n', [], 'I')
        d['selected_hist'] = mk(AV([m, I(3)], lambda e, f: V1(u, e, f), 'f'))
        st.heap[D.data.cell] = d
        return [le(0, m)] + ([rng(D.ms(k), D.n)] if k.op == 'var' else [])
    def claims(self, I_, st0, st, k):
        D = self.D; P, L = D.P, D.L
        if not hasattr(D, 'ms'): raise Unsupported('list of the missing profiles')
        d = st.content(D.data.cell); out = [('next column', eq(it(scal(I_, st, st.env['profile_index'])), add(P, k)))]
        i, q = k_(), k_()
        for key in LA:
            r = eqv(I_, st, d.get(key), 2)
            if r is None: raise Unsupported(f'{key} is not a matrix')
            sh, f = r
            out.append((f'{key}: one column per profile', and_(eq(sh[0], L), eq(sh[1], add(P, k)))))
            out.append((f'{key}: stored columns unchanged', bind('forall', i, L, bind('forall', q, P, feq(f(i, q), U1('old_' + key, i, q))))))
            if k is I(0): continue
            e = sub(k, 1)
            out.append((f'{key}: earlier new columns unchanged', bind('forall', i, L, bind('forall', q, e, feq(f(i, add(P, q)), D.value(key, i, D.ms(q)))))))
            out.append((f'{key}: the new column is of its own profile', bind('forall', i, L, feq(f(i, add(P, e)), D.formula(key, i, D.ms(e))))))
        for key in [*SC, 'la_profile_no']:
            r = eqv(I_, st, d.get(key), 1)
            if r is None: raise Unsupported(f'{key} is not a sequence')
            sh, f = r; new = (lambda x: D.setting(key, x)) if key in SC else (lambda x: F(D.PN(x))); last = (lambda x: D.given(key, x)) if key in SC else new; old = (lambda x: U1('old_' + key, x)) if key in SC else (lambda x: F(D.ON(x)))
            out.append((f'{key}: one entry per profile', eq(sh[0], add(P, k))))
            out.append((f'{key}: stored entries unchanged', bind('forall', q, P, feq(f(q), old(q)))))
            if k is I(0): continue
            e = sub(k, 1)
            out.append((f'{key}: earlier new entries unchanged', bind('forall', q, e, feq(f(add(P, q)), new(D.ms(q))))))
            out.append((f'{key}: the new entry is of its own profile', feq(f(add(P, e)), last(D.ms(e)))))
        return [x for x in out if D.pick(x[0])]


class Levels(Inv):
    """after k levels of a profile"""
    fn = CA + '.update_salinity_mapping'
    def __init__(self, D): self.D = D
    def applies(self, I_, s, n, st): return 'map_data_grid' in calls(s, I_) and 'get_float_data' not in calls(s, I_)
    def cells(self, I_, st0):
        d = st0.content(self.D.data.cell); return {d[k].cell: k for k in [*LA, *SC]}
    def covers(self, I_, st0, key): return (key[0] == 'cell' and key[1] in self.cells(I_, st0)) or key == ('dict', self.D.data.cell, 'selected_hist')
    def expect(self, I_, st0, key, k):
        D = self.D; d = st0.content(D.data.cell); c0 = add(D.P, D.k); j = D.j
        if key in LA:
            a = I_.avs(st0, d[key])
            def e(i, q):
                v = D.formula(key, i, j); return s_where(and_(eq(q, c0), lt(i, k), D.mapped(i, j)), F(v.v, FALSE if key != 'la_ptmp' else D.src('PTMP', i, j).nan), a.elt(i, q))
            return a.shape, e
        s = st0.content(d[key].cell)
        return (s.n,), lambda q: s_where(and_(eq(q, c0), D.any_mapped(j, k)), fl(D.cfg[SC[key]]), s.elt(q))
    def state(self, I_, st0, st, k):
        D = self.D; d = st0.content(D.data.cell); D.l = k
        turn = k.op == 'var' and k is not D.L; D.tag = st0 if turn else None
        if turn: D.reqs = [r for r in D.reqs if r[0] is not st0]        # of an earlier attempt at the same iteration
        for cell, key in self.cells(I_, st0).items():
            sh, e = self.expect(I_, st0, key, k)
            st.heap[cell] = AV(sh, e, 'f') if key in LA else SeqV(n=sh[0], elt=e)
        u = fresh('sl', 'I').data[0]; m = uf(u + 'n', [], 'I')
        st.heap[D.data.cell] = {**st.content(D.data.cell), 'selected_hist': mk(AV([m, I(3)], lambda e, f: V1(u, e, f), 'f'))}
        return [le(0, m)]
    def claims(self, I_, st0, st, k):
        D = self.D; d0 = st0.content(D.data.cell); d = st.content(D.data.cell); out = []
        i, q = k_(), k_()
        for key in [*LA, *SC]:
            sh, e = self.expect(I_, st0, key, k); r = eqv(I_, st, d.get(key), len(sh))
            if r is None or d[key].cell != d0[key].cell: raise Unsupported(f'{key} is not filled in place')
            if len(sh) == 2: g = bind('forall', i, sh[0], bind('forall', q, sh[1], feq(r[1](i, q), e(i, q))))
            else: g = bind('forall', q, sh[0], feq(r[1](q), e(q)))
            out.append((f'level: {key}', and_(*[eq(x, y) for x, y in zip(r[0], sh)], g)))
        return [x for x in out if D.pick(x[0])]


class Quality(Inv):
    """mapped salinities outside 30-40 become missing"""
    fn = CA + '.update_salinity_mapping'
    def __init__(self, D): self.D = D
    def applies(self, I_, s, n, st): return not calls(s, I_) and 'bad_sal' in st.env
    def cell(self, st0): return st0.content(self.D.data.cell)['la_mapped_sal'].cell
    def covers(self, I_, st0, key): return key == ('cell', self.cell(st0))
    def state(self, I_, st0, st, k):
        D = self.D; x = I_.avs(st0, st0.content(D.data.cell)['la_mapped_sal']); u = fresh('ok', 'I').data[0]; b = I_.avs(st0, st0.env['bad_sal'])
        D.x, D.b = x, b
        N = lambda i, q: uf(u, [i, q], 'B')
        st.heap[self.cell(st0)] = AV(x.shape, lambda i, q: F(fl(x.elt(i, q)).v, or_(N(i, q), fl(x.elt(i, q)).nan)), 'f')
        i, q, t = k_(), k_(), k_(); D.N = N
        D.qf = [bind('forall', i, x.shape[0], bind('forall', q, x.shape[1], or_(not_(N(i, q)), lt(fl(x.elt(i, q)).v, R(30)), lt(R(40), fl(x.elt(i, q)).v)))), bind('forall', t, k, N(it(b.elt(t, I(0))), it(b.elt(t, I(1)))))]
        return list(D.qf)
    def claims(self, I_, st0, st, k):
        D = self.D; x = I_.avs(st0, st0.content(D.data.cell)['la_mapped_sal']); b = I_.avs(st0, st0.env['bad_sal'])
        y = I_.avs(st, st.content(D.data.cell)['la_mapped_sal']); i, q, t = k_(), k_(), k_()
        X, Y = fl(x.elt(i, q)), fl(y.elt(i, q))
        i, q = D.c.int('row'), D.c.int('col'); X, Y = fl(x.elt(i, q)), fl(y.elt(i, q))
        g = implies(and_(rng(i, x.shape[0]), rng(q, x.shape[1])), and_(not_(X.bad), or_(feq(Y, X), and_(Y.nan, not_(Y.bad), or_(lt(X.v, R(30)), lt(R(40), X.v))))))
        out = [('quality: shape', and_(eq(y.shape[0], x.shape[0]), eq(y.shape[1], x.shape[1]))), ('quality: other values unchanged', g)]
        if k is not I(0):
            e = sub(k, 1); b0 = it(b.elt(e, I(0))); cs = [('below', b0.args[0]), ('above', not_(b0.args[0]))] if b0.op == 'ite' else []
            out[-1] += (('only', [at(D.qf[0], i, q)]) if cs else [at(D.qf[0], i, q)], cs, [])
        if k is not I(0): out.append(('quality: values found missing', bind('forall', t, k, fl(y.elt(it(b.elt(t, I(0))), it(b.elt(t, I(1))))).nan)))
        return [z for z in out if D.pick(z[0])]
