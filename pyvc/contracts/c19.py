"""C19: frontal_constraint_saf. np.interp and the gsw conversions are uninterpreted; what they are given is obliged to be the
valid levels of the float or of the cast."""
import ast
from con import *
from loops import Inv
from contracts.driver import U1
import npm
K2, K1 = ('sal', 'ptmp', 'pres'), ('lat', 'long', 'dates', 'z')


def sels(x):
    out = {}
    def go(y):
        if y.op == 'bind' and y.data[0] == 'sel': out[y] = 1
        for z in y.args: go(z)
    go(x); return list(out)


def binds(x, kind):
    out = {}
    def go(y):
        if y.op == 'bind' and y.data[0] == kind: out[y] = 1
        for z in y.args: go(z)
    go(x); return out


def names(x):
    out = set()
    def go(y):
        if y.op == 'uf': out.add(y.data)
        for z in y.args: go(z)
    go(x); return out


class Casts(Inv):
    """after k casts: their sides; the others still 0"""
    fn = FE + '.frontal_constraint_saf'
    def __init__(self, w): self.w = w
    def applies(self, I_, s, n, st):
        to = {t.value.id for x in s.body for y in ast.walk(x) if isinstance(y, ast.Assign) for t in y.targets if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name)}
        if len(to) != 1 or not isinstance(st.env.get(list(to)[0]), Lst): return False
        self.cell = st.env[list(to)[0]].cell; return True
    def covers(self, I_, st0, key): return key == ('cell', self.cell)
    def elt(self, I_, st0, k):
        q = st0.content(self.cell); return q.n, lambda i: ite(lt(i, k), self.w.side(i), it(q.elt(i)))
    def state(self, I_, st0, st, k):
        n, e = self.elt(I_, st0, I(k)); st.heap[self.cell] = SeqV(n=n, elt=e); return []
    def claims(self, I_, st0, st, k):
        n, e = self.elt(I_, st0, I(k)); q = st.content(self.cell); i, i2 = fresh('k', 'I'), fresh('k', 'I'); k = I(k)
        out = [('one side per cast', eq(q.n, n))]
        if k is I(0): return out + [('sides', bind('forall', i, n, eq(it(q.elt(i)), e(i))))]
        l = sub(k, 1)
        w = self.w; parts = w.parts(l); some = lt(2, w.count(l)); facts = [w.defs(l, False)]
        for p in st.pc:
            if p in st0.pc: continue
            body = p.args[0] if p.op == 'not' else p
            for x in (body.args if body.op == 'and' else [body]):
                b = binds(x, 'argmin')
                if b: y = next(iter(b)).args[1]; nm = 'below' if y.op == 'uf' and y.data == 'pair' and y.args[1].op == 'uf' else 'above'
                elif [y for y in binds(x, 'sum') if binds(y.args[1], 'sel')]: nm = 'steps'
                elif binds(x, 'sum'): nm = 'count'
                else: continue
                pn = positive(x, nm, parts[nm]); f = implies(some, eq(x, pn)) if nm != 'count' else eq(x, pn)
                if nm == 'steps' and len(b := [y for y in binds(x, 'sum') if binds(y.args[1], 'sel')]) == 1:
                    v, n2, bd = open_(b[0]); t = fresh('k', 'I'); cnt = w.count(l); cond = lambda t: subst(bd.args[0], {v: t})
                    A = none(v, n2, bd.args[0]); Bf = lambda t: implies(rng(t, sub(cnt, 1)), eq(cond(t), w.step(l, t))); t1 = self.w.c.int('step')
                    out.append(('condition on the levels of the cast: equal pressures', Bf(t1), [some], [], [t1, add(t1, 1)]))
                    out.append((f'condition on the levels of the cast: {nm}', f, ('only', [A, bind('forall', t, sub(cnt, 1), Bf(t))]), [('some', some)], [])); facts.append(f); continue
                out.append((f'condition on the levels of the cast: {nm}', f, [some] if nm != 'count' else [], [], []))
                facts.append(f)
        if len(facts) > 1: return out + [('sides of other casts', bind('forall', i, n, implies(ne(i, l), eq(it(q.elt(i)), e(i))))), ('side of the cast', eq(it(q.elt(l)), e(l)), ('only', facts), [('usable', uf('usable', [l], 'B'))], [])]
        return out + [('sides of other casts', bind('forall', i, n, implies(ne(i, l), eq(it(q.elt(i)), e(i))))), ('side of the cast', eq(it(q.elt(l)), e(l)), [self.w.defs(l)], [], [])]


class World:
    def __init__(self, c, south):
        self.c = c; self.r, self.s, self.L, self.D = [c.int(x) for x in 'r s L D'.split()]; self.reqs = []
        r, s, L, D = self.r, self.s, self.L, self.D
        self.grid = {f'grid_{k}': c.arr('g_' + k, [r, s]) for k in K2}; self.grid.update({f'grid_{k}': c.arr('g_' + k, [s], nan=False) for k in K1})
        self.lat = c.real('flat')
        self.float = dict(float_lat=self.lat, float_pres=c.arr('fpres', [L]), float_tmp=c.arr('ftmp', [L]), float_sal=c.arr('fsal', [L]))
        self.table = {k: c.arr('t_' + k, [1, D], nan=False) for k in 'S_meanS S_meanN S_stdS T_stdS S_stdN T_stdN T_meanS T_meanN Deph'.split()}
        self.pc = [le(1, r), le(1, s), le(0, L), le(3, D), lt(self.lat.v, R(-30)) if south else le(R(-30), self.lat.v)]

    # ---- what the statement says
    def fok(self, l): return and_(not_(U1('fpres', l).nan), not_(U1('ftmp', l).nan))
    def gok(self, e, i): return and_(*[not_(U1('g_' + k, e, i).nan) for k in K2], lt(add(e, 1), self.r), or_(U1('g_pres', add(e, 1), i).nan, ne(U1('g_pres', add(e, 1), i).v, U1('g_pres', e, i).v)))

    def usable(self, i):
        """more than two levels, none at the pressure of the one before, on both sides of 300 dbar"""
        return and_(*self.parts(i).values())
    def count(self, i): e = fresh('k', 'I'); return bind('sum', e, self.r, ite(self.gok(e, i), I(1), I(0)))
    def parts(self, i):
        e, f, g, t = [fresh('k', 'I') for _ in range(4)]; p = lambda e: U1('g_pres', e, i).v; r = self.r
        cnt = bind('sum', e, r, ite(self.gok(e, i), I(1), I(0))); lv = lambda t: bind('sel', e, r, self.gok(e, i), t, sort='I')
        return dict(count=lt(2, cnt), below=not_(bind('forall', f, r, not_(and_(self.gok(f, i), lt(p(f), R(300)))))), above=not_(bind('forall', g, r, not_(and_(self.gok(g, i), lt(R(300), p(g)))))),
                    steps=bind('forall', t, sub(cnt, 1), not_(self.step(i, t))))
    def step(self, i, t):
        e = fresh('k', 'I'); lv = lambda t: bind('sel', e, self.r, self.gok(e, i), t, sort='I')
        return eq(U1('g_pres', lv(t), i).v, U1('g_pres', lv(add(t, 1)), i).v)
    def side(self, i):
        t = F(uf('T300', [i], 'R'), uf('T300.nan', [i], 'B'))
        return ite(and_(uf('usable', [i], 'B'), not_(t.nan)), ite(lt(R(5), t.v), I(1), ite(lt(t.v, R(3)), I(-1), I(0))), I(0))
    def defs(self, i, full=True):
        u = uf('usable', [i], 'B')
        return eq(u, self.usable(i)) if full else and_(*[implies(u, x) for x in self.parts(i).values()], or_(u, *[not_(x) for x in self.parts(i).values()]))


def over(w):
    c = w.c; r, s, L, D = w.r, w.s, w.L, w.D
    def req(I_, name, goal, hints=()):
        w.reqs.append((name, list(I_.st.facts) + list(I_.st.pc), goal, hints))
    def load(I_, a, kw):
        if a[0] != 'K/saf.mat': raise Unsupported(f'file {a[0]}')
        return mkdict(w.table)
    def elem(nm): return lambda I_, a, kw: npm.ew(I_, lambda *x: F(uf(nm, [fl(y).v for y in x], 'R'), or_(*[fl(y).nan for y in x])), 'f', *[npm.asav(I_, y) for y in a])
    def interp(I_, a, kw):
        x, xp, fp = a[:3]; XP, FP = I_.av(xp), I_.av(fp)
        if set(kw) != {'left', 'right'} or not all(isinstance(v, F) and v.nan is TRUE for v in kw.values()): raise Unsupported('interp beyond the ends')
        if XP.ndim != 1 or FP.ndim != 1: raise Unsupported('interp of matrices')
        t = fresh('t', 'I'); nm = names(fl(XP.elt(t)).v)
        if 'fpres' in nm or 'g_pres' in nm:
            ss = [y for y in sels(fl(XP.elt(t)).v) if y.args[2] is t]
            if len(ss) != 1: raise Unsupported('levels of the profile')
            lv = ss[0]; at_ = lambda q: subst(lv, {t: q})
        e = fresh('e', 'I')
        if 'fpres' in nm:
            what = 'ftmp' if 'ftmp' in names(fl(FP.elt(t)).v) and 'fsal' not in names(fl(FP.elt(t)).v) else 'fsal'
            v, n, b = open_(lv)
            req(I_, 'float: levels with pressure and temperature', and_(eq(n, L), bind('forall', e, L, eq(subst(b, {v: e}), w.fok(e)))))
            t2 = fresh('t', 'I')
            req(I_, f'float: {what} of those levels', and_(eq(XP.shape[0], FP.shape[0]), bind('forall', t2, XP.shape[0], and_(feq(XP.elt(t2), U1('fpres', at_(t2))), same(FP.elt(t2), U1(what, at_(t2)))))))
            if isnum(x):
                req(I_, 'float: at 300 dbar', feq(x, F(R(300)))); req(I_, 'float: temperature at 300 dbar', B(what == 'ftmp'))
                return F(uf('t300', [], 'R'), uf('t300.nan', [], 'B'))
            X = I_.av(x)
            d = fresh('d', 'I'); req(I_, f'float: {what} at the depths of the table', and_(eq(X.shape[0], sub(D, 2)), bind('forall', d, X.shape[0], feq(X.elt(d), F(U1('t_Deph', 0, add(d, 2)).v)))))
            return mk(AV([X.shape[0]], lambda k, what=what: U1('i_' + what, k), 'f'))
        if 'g_pres' in nm:
            cols = {y.args[1]: 1 for y in ufs(fl(XP.elt(t)).v, 'g_pres')}
            if len(cols) != 1 or not isnum(x): raise Unsupported('interpolation of casts')
            i = list(cols)[0]; v, n, b = open_(lv); t2 = fresh('t', 'I')
            req(I_, 'cast: its levels', bind('forall', e, r, eq(and_(lt(e, n), subst(b, {v: e})), w.gok(e, i))))
            tmp = lambda e: F(uf('t_from_CT', [uf('SA', [U1(f'g_{k}', *ix).v for k, ix in (('sal', (e, i)), ('pres', (e, i)), ('long', (i,)), ('lat', (i,)))], 'R'), uf('CT_from_pt', [uf('SA', [U1(f'g_{k}', *ix).v for k, ix in (('sal', (e, i)), ('pres', (e, i)), ('long', (i,)), ('lat', (i,)))], 'R'), U1('g_ptmp', e, i).v], 'R'), U1('g_pres', e, i).v], 'R'))
            req(I_, 'cast: temperatures of those levels', and_(eq(XP.shape[0], FP.shape[0]), bind('forall', t2, XP.shape[0], and_(feq(XP.elt(t2), U1('g_pres', at_(t2), i)), eq(fl(FP.elt(t2)).v, tmp(at_(t2)).v)))))
            req(I_, 'cast: at 300 dbar', feq(x, F(R(300))))
            return F(uf('T300', [i], 'R'), uf('T300.nan', [i], 'B'))
        # envelopes of the table
        X = I_.av(x); d = fresh('d', 'I'); y = fl(X.elt(d)).v
        side = 'N' if any(z.endswith('meanN') for z in nm) else 'S'; sgn = None
        of = 'T' if side == 'N' else 'S'; to = 'S' if side == 'N' else 'T'; n = sub(D, 2)
        tb = lambda nm, k: F(U1(nm, 0, add(k, 2)).v)
        def edge(q, sg, k): return s_add(tb(f't_{q}_mean{side}', k), s_mul(tb(f't_{q}_std{side}', k), F(R(sg))))
        f0 = fl(FP.elt(t)).v
        k = sub(n, add(t, 1)) if side == 'N' else t
        for sg, nmx in ((-1, 'inf'), (1, 'sup')):
            if fl(edge(to, sg, k)).v is f0: sgn = (sg, nmx)
        if sgn is None: raise Unsupported(f'envelope {side} {to} {f0} {fl(edge(to, 1, k)).v}')
        t2 = fresh('t', 'I'); k2 = sub(n, add(t2, 1)) if side == 'N' else t2
        req(I_, f'envelope: {side}{sgn[1]}', and_(eq(XP.shape[0], n), eq(FP.shape[0], n), bind('forall', t2, n, and_(feq(XP.elt(t2), edge(of, sgn[0], k2)), feq(FP.elt(t2), edge(to, sgn[0], k2))))))
        what = 'ftmp' if side == 'N' else 'fsal'; d2 = fresh('d', 'I')
        req(I_, f'envelope: {what} of the float', and_(eq(X.shape[0], n), bind('forall', d2, n, same(X.elt(d2), U1('i_' + what, d2)))))
        nm = f'e_{side}{sgn[1]}'
        return mk(AV([X.shape[0]], lambda k: U1(nm, k), 'f'))
    return {'scipy.io.loadmat': load, 'np.interp': interp, 'gsw.conversions.SA_from_SP': elem('SA'), 'gsw.conversions.CT_from_pt': elem('CT_from_pt'), 'gsw.conversions.t_from_CT': elem('t_from_CT'),
            'os.path.sep.join': lambda I_, a, kw: '/'.join(I_.items(a[0])), 'os.path.join': lambda I_, a, kw: '/'.join(a)}


def same(x, y):
    x, y = fl(x), fl(y); return and_(eq(x.nan, y.nan), or_(x.nan, eq(x.v, y.v)))


def ufs(x, nm):
    out = {}
    def go(y):
        if y.op == 'uf' and y.data == nm: out[y] = 1
        else:
            for z in y.args: go(z)
    go(x); return list(out)


def gval(k, *ix): return U1('g_' + k, *ix) if k in K2 else F(U1('g_' + k, *ix).v)


def north(c):
    w = World(c, False)
    outs = c.run(FE, 'frontal_constraint_saf', [mkdict(dict(CONFIG_DIRECTORY='K', CONFIG_SAF='saf.mat')), mkdict(w.grid), mkdict(w.float)], pc=w.pc, over=over(w))
    e, i = c.int('e'), c.int('i')
    for v, s in c.returns(outs, 'north: no error'):
        d = s.content(v.cell); I_ = c.last; h = hy(s)
        for k in K2 + K1:
            a = I_.avs(s, d['grid_' + k]); sh = [w.r, w.s] if k in K2 else [w.s]; ix = [e, i] if k in K2 else [i]
            c.prove(f'north of 30 S: {k} of all casts', h + [rng(x, n) for x, n in zip(ix, sh)], and_(*[eq(x, y) for x, y in zip(a.shape, sh)], feq(a.elt(*ix), gval(k, *ix))), hints=ix)


def obligations(c):
    c.ob('north', lambda: north(c))
    c.ob('south', lambda: south(c))


def lemmas(c):
    """about counts of the d < n with P(d), and with Q(d) too: used at the places named by `none` and `every`"""
    n, m, t = c.int('n'), c.int('m'), fresh('k', 'I'); p, q = uf('P', [t], 'B'), uf('Q', [t], 'B'); num = lambda x, n: bind('sum', t, n, ite(x, I(1), I(0)))
    c.prove('a count is zero exactly if there is none', [le(0, n)], eq(eq(num(p, n), I(0)), bind('forall', t, n, not_(p))))
    c.prove('a count is not negative', [le(0, n)], le(0, num(p, n)))
    D = lambda n: eq(num(p, n), add(num(and_(p, q), n), num(and_(p, not_(q)), n)))
    c.prove('a count is the sum of its parts: none', [], D(I(0)))
    c.prove('a count is the sum of its parts: one more', [le(0, m), D(m)], D(add(m, 1)), hints=[m])


def none(v, n, b):
    num = bind('sum', v, n, ite(b, I(1), I(0)))
    return implies(le(0, n), and_(le(0, num), eq(eq(num, I(0)), bind('forall', v, n, not_(b)))))


def every(v, n, p, q):
    """all those with P have Q: P is counted as often as P and Q"""
    num = lambda x: bind('sum', v, n, ite(x, I(1), I(0)))
    return [implies(le(0, n), eq(num(p), add(num(and_(p, q)), num(and_(p, not_(q)))))), none(v, n, and_(p, not_(q)))]


def south(c):
    lemmas(c)
    w = World(c, True); r, s_, L, D = w.r, w.s, w.L, w.D
    I_ = c.interp(); I_.plain = True
    outs = c.run(FE, 'frontal_constraint_saf', [mkdict(dict(CONFIG_DIRECTORY='K', CONFIG_SAF='saf.mat')), mkdict(w.grid), mkdict(w.float)], pc=w.pc, over=over(w), invs=[Casts(w)], interp=I_)
    for name, h, g, hints in w.reqs: c.prove('arguments: ' + name, h, g, hints=hints)
    e, i, i2, j = c.int('e'), c.int('i'), c.int('i2'), c.int('j')
    for v, s in c.returns(outs, 'south: no error'):
        d = s.content(v.cell); h = hy(s); a = {k: I_.avs(s, d['grid_' + k]) for k in K2 + K1}
        x = fl(a['long'].elt(i)).v; cast = {y.args[0]: 1 for y in ufs(x, 'g_long')}
        if len(cast) != 1 or x.op != 'uf' or next(iter(cast)).op != 'bind': c.add('south: cast of a place', 'unknown', str(x)[:200]); continue
        cast = next(iter(cast)); sv, sn, body = open_(cast); m = a['long'].shape[0]; at_ = lambda k: subst(cast, {i: k})
        for k in K2 + K1:
            sh = [r, m] if k in K2 else [m]; ix = [e, i] if k in K2 else [i]
            c.prove(f'south of 30 S: {k} of the selected casts', h + [rng(y, n) for y, n in zip(ix, sh)], and_(*[eq(y, z) for y, z in zip(a[k].shape, sh)], feq(a[k].elt(*ix), gval(k, e, cast) if k in K2 else gval(k, cast))), hints=ix)
        # the selected casts: those with the condition, in their order
        pk = lambda y: uf('selected', [y], 'B'); memo = {cast: bind('sel', sv, sn, pk(sv), i, sort='I')}; ab = memo[cast]; num = lambda n: bind('sum', sv, n, ite(pk(sv), I(1), I(0)))
        cnt = bind('sum', sv, sn, ite(body, I(1), I(0)))
        if m is not cnt: c.prove('south of 30 S: number of selected casts', [le(1, s_)], eq(m, cnt))
        c.prove('south of 30 S: every column is a cast of its own, in order', [le(1, s_), rng(i, num(sn)), rng(i2, i)], and_(rng(ab, s_), pk(ab), lt(subst(ab, {i: i2}), ab)), hints=[i, i2])
        c.prove('south of 30 S: every selected cast has a column', [le(1, s_), rng(e, s_), pk(e)], and_(rng(num(e), num(sn)), eq(subst(ab, {i: num(e)}), e)), hints=[e])
        # the condition
        at = []
        def atoms(y):
            if y.op in ('ge0', 'le0', 'eq0') and binds_any(y) and not loose_ite(y):
                if y not in at: at.append(y)
            elif y.op != 'bind':
                for z in y.args: atoms(z)
        atoms(body)
        P = floatparts(w)
        rep = {}
        for y in at:
            nm, facts, hyps = kind(w, y)
            if nm is None: raise Unsupported('condition ' + str(y)[:200])
            pn = positive(y, nm, P[nm]); neg = pn is not P[nm]; b = uf('c_' + nm, [], 'B')
            c.prove(f'condition of the float: {nm}', hyps(P) + facts + [le(3, D), le(0, L)], eq(y, pn))
            known = TRUE if hyps(P) == [] else uf('c_count', [], 'B'); b = b if known is TRUE else or_(and_(known, b), and_(not_(known), uf('u_' + nm, [], 'B'))); rep[y] = not_(b) if neg else b
        b = lambda nm: uf('c_' + nm, [], 'B'); t3 = F(uf('t300', [], 'R'), uf('t300.nan', [], 'B'))
        env = ite(b('some'), ite(and_(b('allsouth'), b('allnorth')), I(0), ite(b('allsouth'), I(-1), ite(b('allnorth'), I(1), I(0)))), I(0))
        crit = ite(and_(b('count'), b('steps'), b('below'), b('above')), ite(and_(not_(t3.nan), lt(R(5), t3.v)), I(1), ite(and_(not_(t3.nan), lt(t3.v, R(3))), I(-1), env)), I(0))
        bj = treplace(subst(body, {sv: j}), rep)
        c.by_cases('south of 30 S: selected are the casts on the side of the float, all if it is not classified', [le(1, s_), rng(j, s_)], eq(bj, eq(crit, ite(eq(crit, I(0)), I(0), w.side(j)))), [('usable', and_(b('count'), b('steps'), b('below'), b('above')))])


def positive(x, nm, p):
    """p or its negation, whichever the code's condition x says (seen at one value of its counts or of its extremes)"""
    put = {'steps': I(0), 'count': I(3), 'below': R(299), 'above': R(301), 'some': I(1), 'allsouth': I(1), 'allnorth': I(1)}[nm]; m = {}
    def go(y):
        if nm in ('below', 'above'):
            if y.op == 'uf' and y.data in ('fpres', 'g_pres'): m[y] = put
            else:
                for z in y.args: go(z)
        elif y.op == 'bind' and y.data[0] == 'sum': m[y] = put
        else:
            for z in y.args: go(z)
    go(x); z = treplace(x, m)
    if z is TRUE: return p
    if z is FALSE: return not_(p)
    raise Unsupported('condition ' + str(x)[:200])


def binds_any(x): return x.op == 'bind' or any(binds_any(y) for y in x.args)
def loose_ite(x): return x.op == 'ite' or x.op != 'bind' and any(loose_ite(y) for y in x.args)


def fcond(w, t):
    e = fresh('k', 'I'); lv = lambda t: bind('sel', e, w.L, w.fok(e), t, sort='I'); p = lambda t: U1('fpres', lv(t)).v
    return eq(p(t), p(add(t, 1)))


def ok2(d):
    z = F(U1('t_Deph', 0, add(d, 2)).v).v
    return and_(lt(R(150), z), lt(z, R(1700)), *[not_(U1(n, d).nan) for n in ('i_fsal', 'e_Sinf', 'e_Ssup', 'e_Ninf', 'e_Nsup')])
def inside(d, what, side):
    x, lo, hi = [U1(n, d) for n in ('i_' + what, f'e_{side}inf', f'e_{side}sup')]
    return and_(not_(x.nan), lt(lo.v, x.v), lt(x.v, hi.v))


def floatparts(w):
    e, f, g, t, d = [fresh('k', 'I') for _ in range(5)]; p = lambda e: U1('fpres', e).v; L = w.L; n = sub(w.D, 2)
    cnt = bind('sum', e, L, ite(w.fok(e), I(1), I(0)))
    return dict(cnt=cnt, count=lt(2, cnt), below=not_(bind('forall', f, L, not_(and_(w.fok(f), lt(p(f), R(300)))))), above=not_(bind('forall', g, L, not_(and_(w.fok(g), lt(R(300), p(g)))))),
                steps=bind('forall', t, sub(cnt, 1), not_(fcond(w, t))), some=not_(bind('forall', d, n, not_(ok2(d)))),
                allsouth=bind('forall', d, n, implies(ok2(d), inside(d, 'ftmp', 'S'))), allnorth=bind('forall', d, n, implies(ok2(d), inside(d, 'fsal', 'N'))))


def kind(w, x):
    """which of the conditions an atom of the code is, facts about it, and what it presumes"""
    nm = names(x); d = fresh('k', 'I'); n = sub(w.D, 2); free = lambda P: []; pre = lambda P: [P['count']]
    if any(z[:2] == 'e_' for z in nm):
        b = list(binds(x, 'sum'))
        if len(b) == 1: return 'some', [none(d, n, ok2(d))], free
        if 'i_ftmp' in nm: return 'allsouth', every(d, n, ok2(d), inside(d, 'ftmp', 'S')), free
        return 'allnorth', every(d, n, ok2(d), inside(d, 'fsal', 'N')), free
    b = binds(x, 'argmin')
    if b:
        y = next(iter(b)).args[1]; nm = 'below' if y.op == 'uf' and y.data == 'pair' and y.args[1].op == 'uf' else 'above'
        return nm, [], pre
    b = [y for y in binds(x, 'sum') if binds(y.args[1], 'sel')]
    if b: v, n2, bd = open_(b[0]); return 'steps', [none(v, n2, bd.args[0])], pre
    return 'count', [], free
