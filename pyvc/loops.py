"""Loops over symbolic ranges: closed forms derived from one generic iteration."""
from vals import *
from ir import *
from ir import _mk, _coef
import interp as IP
from interp import PyExc, mk, mkseq, mkdict, State


# ---------------------------------------------------------------- inverting index expressions
def solve_multi(eqs, ts, dims):
    """all (q, i): q(ts) = i. -> (condition, [ts]) for the last ts in row-major order that satisfies them"""
    live = [(t, n) for t, n in zip(ts, dims)]
    if len(live) == 1: c, r = solve_index(eqs, ts[0], I(dims[0])); return c, [r]
    # several index dimensions: each equation should use one of them (np.ix_ like, or a unit axis)
    cond, out = TRUE, []
    names = {t.data for t in ts}
    rest = list(eqs)
    for t, n in live:
        mine = [(q, i) for q, i in rest if t.data in q.fv]
        if any((q.fv & names) - {t.data} for q, i in mine): raise Unsupported('coupled index arrays')
        rest = [e for e in rest if e not in mine]
        c, r = solve_index(mine, t, I(n))
        cond = and_(cond, c); out.append(r)
    for q, i in rest: cond = and_(cond, eq(q, i))
    return cond, out


def below(i, m, pos, nn):
    """i m + b < nn, given 0 <= b < m; i < q when nn = m q"""
    if nn.op == 'mul' and m in nn.args and not isc(m):
        k = nn.args.index(m); return lt(i, mul(*(nn.args[:k] + nn.args[k + 1:])))
    return lt(pos, nn)


def solve_index(eqs, t, n):
    """last t in [0,n) with q = i for all (q, i) in eqs -> (condition, t)"""
    eqs = [(I(q), I(i)) for q, i in eqs]
    free = and_(*[eq(q, i) for q, i in eqs if t.data not in q.fv])
    eqs = [(q, i) for q, i in eqs if t.data in q.fv]
    if not eqs: return and_(free, gt(n, 0)), sub(n, 1)
    # pairs (x // m = a, x % m = b)  ->  x = a m + b, 0 <= b < m
    for k, (q, i) in enumerate(eqs):
        if q.op == 'fdiv' and t.data not in q.args[1].fv:
            for l, (q2, i2) in enumerate(eqs):
                if q2.op == 'mod' and q2.args[0] is q.args[0] and q2.args[1] is q.args[1]:
                    x, m = q.args; rest = [e for j, e in enumerate(eqs) if j not in (k, l)]
                    rg = and_(le(0, i2), lt(i2, m))
                    if x.op == 'bind' and x.data[0] == 'sel' and x.args[2] is t and t.data not in x.args[0].fv | (x.args[1].fv - {x.data[1]}) and not rest:
                        # t-th true element of a flattened mask
                        v, nn, body = open_(x)
                        b2 = treplace(body, {fdiv(v, m): i, mod(v, m): i2})
                        pos = add(mul(i, m), i2)
                        if v.data in b2.fv: b2 = subst(b2, {v: pos})
                        r = bind('sum', v, pos, ite(body, I(1), I(0)))
                        return and_(free, rg, le(0, i), below(i, m, pos, nn), b2, lt(r, n) if n is not bind('sum', v, nn, ite(body, I(1), I(0))) else TRUE), r
                    c, r = solve_index([(x, add(mul(i, m), i2))] + rest, t, n)
                    return and_(free, rg, c), r
    q, i = eqs[0]
    rest = eqs[1:]
    # affine
    d = sub(q, i)
    ts = d.args if d.op == 'add' else (d,)
    hit = [a for a in ts if t.data in a.fv]
    if len(hit) == 1:
        c, r = _coef(hit[0])
        if r is t and abs(c) == 1:
            w = mul(I(int(-c)), sub(d, hit[0]))
            return and_(free, le(0, w), lt(w, n), *[eq(subst(p, {t: w}), j) for p, j in rest]), w
        if abs(c) == 1 and r.op == 'bind' and r.data[0] == 'sel' and r.args[2] is t and t.data not in r.args[0].fv and not (t.data in (r.args[1].fv - {r.data[1]})):
            w = mul(I(int(-c)), sub(d, hit[0]))
            v, nn, body = open_(r)
            rk = bind('sum', v, w, ite(body, I(1), I(0)))
            cnt = bind('sum', v, nn, ite(body, I(1), I(0)))
            return and_(free, le(0, w), lt(w, nn), subst(body, {v: w}), lt(rk, n) if n is not cnt else TRUE, *[eq(subst(p, {t: rk}), j) for p, j in rest]), rk
        if abs(c) == 1 and r.op == 'bind' and r.data[0] == 'sel' and t.data in r.args[2].fv and t.data not in r.args[0].fv and not (t.data in (r.args[1].fv - {r.data[1]})):
            # sel(.., g(t)) = w  <=>  g(t) = rank(w) and w selected
            w = mul(I(int(-c)), sub(d, hit[0]))
            v, nn, body = open_(r)
            rk = bind('sum', v, w, ite(body, I(1), I(0)))
            c2, r2 = solve_index([(r.args[2], rk)] + rest, t, n)
            return and_(free, le(0, w), lt(w, nn), subst(body, {v: w}), c2), r2
        if abs(c) == 1 and r.op == 'ite':
            pass
    cond = and_(*[eq(p, j) for p, j in eqs])
    cnt = bind('sum', t, n, ite(cond, I(1), I(0)))
    return and_(free, gt(cnt, 0)), bind('sel', t, n, cond, sub(cnt, 1), sort='I')


# ---------------------------------------------------------------- loops with a stated invariant
class Inv:
    """invariant of the loop of function fn that the contract states. state(I_, st0, st, k) puts the unknown state after k
    iterations into st and returns the facts that hold of it; claims(I_, st0, st, k) lists (name, goal) or
    (name, goal, hypotheses, [(case, condition)][, hints]) to be shown of st - with cases, the goal is shown in each and outside all;
    covers(key): is this part of the state described by state()"""
    fn = ''
    def applies(self, I_, s, n, st): return True
    def state(self, I_, st0, st, k): return []
    def claims(self, I_, st0, st, k): return []
    def covers(self, I_, st0, key): return False


def by_invariant(I_, s, n, elt, st, inv):
    if s.orelse: raise Unsupported('for-else')
    c = inv.con; nm = f'{inv.fn.split(".")[-1]}: loop invariant'
    sv, I_.st = I_.st, st
    for name, g, *cs in inv.claims(I_, st, st, I(0)): c.prove(f'{nm} initially: {name}', list(st.facts) + list(st.pc) + (list(cs[0]) if cs and isinstance(cs[0], list) else []), g, hints=cs[2] if len(cs) > 2 else getattr(inv, 'hints', ()))
    I_.st = sv
    k = fresh('it', 'I'); mark = I_.cellmark()
    import ast
    temps = {('env', x.id) for b in s.body + [s.target] for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    temps = {q for q in temps if not inv.covers(I_, st, q) and get_state(I_, st, q) is UNDEF}
    I_.inloop += 1
    try:
        for _ in range(6):
            cur = st.copy(); cur.assume(le(0, k)); cur.assume(lt(k, n))
            for key in temps: set_state(I_, cur, key, Poison(f'{key} is used before it is set in the iteration'))
            for f in inv.state(I_, st, cur, k): cur.facts.append(f)
            start = cur.copy(); outs = []
            for kd, v, s1 in I_.fork(cur, lambda: I_.assign(s.target, elt(k))):
                if kd != 'ok': outs.append((kd, v, s1)); continue
                outs += I_.block(s.body, s1)
            new = set()
            for kd, v, s1 in outs:
                for key in diff(I_, start, s1, mark):
                    if not inv.covers(I_, st, key) and key not in temps: new.add(key)
            if not new: break
            for key in new:
                if key[0] != 'env': raise Unsupported(f'loop at {s.lineno}: the invariant does not cover {key}')
            temps |= new
        else: raise Unsupported('loop: unstable set of modified variables')
    finally: I_.inloop -= 1
    for kd, v, s1 in outs:
        h = list(s1.facts) + list(s1.pc)
        if kd in ('normal', 'continue'):
            sv, I_.st = I_.st, s1
            for name, g, *cs in inv.claims(I_, st, s1, add(k, 1)):
                hints = [k] + list(getattr(inv, 'hints', ()))
                if not cs: c.prove(f'{nm} kept: {name}', h, g, hints=hints); continue
                if cs[0] is None: continue
                hh, cases = cs[:2]
                if len(cs) > 2: hints = [None] + list(cs[2])
                if not cases: c.prove(f'{nm} kept: {name}', h + hh, g, hints=hints[1:]); continue
                h_ = h
                if isinstance(hh, tuple):          # ('only', instances): of the quantified facts only these instances
                    from con import ground
                    h_, hh = ground(h), list(hh[1])
                for cn, cc in cases: c.prove(f'{nm} kept: {name}: {cn}', h_ + hh + [cc], g, hints=hints[1:])
                c.prove(f'{nm} kept: {name}: other', h_ + hh + [not_(cc) for _, cc in cases], g, hints=[x for x in hints if x is not None])
            I_.st = sv
        elif kd == 'raise': c.prove(f'{nm}: no {v} in the body', h, FALSE)
        else: raise Unsupported(f'{kd} in a loop with an invariant')
    fin = st.copy(); m = imax(n, I(0))
    for f in inv.state(I_, st, fin, m): fin.facts.append(f)
    for key in temps: set_state(I_, fin, key, UNDEF)
    return [('normal', None, fin)]


# ---------------------------------------------------------------- summaries
class Marker:
    """contents unknown at the start of the iteration"""


def mark_names(v):
    return v


class Var:
    def __init__(self, kind, pre):
        self.kind = kind; self.pre = pre; self.marker = None; self.closed = None      # closed(k): value before iteration k
        self.names = set()


def fresh_like(v, nm):
    """marker value shaped like v, and the names it uses"""
    if isinstance(v, F):
        a, b, c = fresh(nm, 'R'), fresh(nm + 'n', 'B'), fresh(nm + 'b', 'B')
        return F(a, b if v.nan is not FALSE else b, c), {a.data, b.data, c.data}
    if isinstance(v, T):
        a = fresh(nm, v.sort); return a, {a.data}
    return None, set()


def uses(x, names):
    """does the value mention a marker"""
    if isinstance(x, (T, F)): return bool(vfv(x) & {n for n in names if isinstance(n, tuple)}) or bool(ufs(x) & names)
    if isinstance(x, tuple): return any(uses(y, names) for y in x)
    return False


_ufm = {}
def uft(t):
    r = _ufm.get(t)
    if r is None:
        r = frozenset([t.data]) if t.op == 'uf' and '!' in str(t.data) else frozenset()
        for a in t.args: r |= uft(a)
        _ufm[t] = r
    return r
def ufs(x):
    if isinstance(x, T): return uft(x)
    if isinstance(x, F): return uft(x.v) | uft(x.nan) | uft(x.bad)
    return frozenset()


def arr_marker(av, nm):
    u = fresh(nm, 'I').data[0]
    if av.dt == 'f': e = lambda *ix: F(uf(u + 'v', ix, 'R'), uf(u + 'n', ix, 'B'), uf(u + 'b', ix, 'B'))
    elif av.dt == 'i': e = lambda *ix: uf(u + 'v', ix, 'I')
    else: e = lambda *ix: uf(u + 'v', ix, 'B')
    return e, {u + 'v', u + 'n', u + 'b'}


def summarise(I_, s, n, elt, st):
    if s.orelse: raise Unsupported('for-else')
    # zero iterations and at least one are both covered by closed forms
    import ast
    I_.inloop += 1
    mark0 = I_.cellmark()
    try:
        vars_ = {}
        k = fresh('it', 'I')
        for attempt in range(12):
            res = attempt_(I_, s, n, elt, st, vars_, k, mark0)
            if res is not None: return res
        raise Unsupported('loop: no closed form after 12 attempts')
    finally: I_.inloop -= 1


def get_state(I_, st, key):
    if key[0] == 'env': return st.env.get(key[1], UNDEF)
    if key[0] == 'cell': return st.content(key[1])
    if key[0] == 'dict': return st.content(key[1]).get(key[2], UNDEF)


def set_state(I_, st, key, v):
    if key[0] == 'env': st.env[key[1]] = v
    elif key[0] == 'cell': st.heap[key[1]] = v
    else:
        d = dict(st.content(key[1])); d[key[2]] = v; st.heap[key[1]] = d


def diff(I_, a, b, mark):
    """keys of the state that differ"""
    out = []
    for nm in {**a.env, **b.env}:
        if a.env.get(nm, UNDEF) is not b.env.get(nm, UNDEF) and not samev(a.env.get(nm, UNDEF), b.env.get(nm, UNDEF)): out.append(('env', nm))
    for c in {**a.heap, **b.heap}:
        if c > mark: continue
        x, y = a.content(c), b.content(c)
        if x is y: continue
        if isinstance(x, dict):
            for kk in {**x, **y}:
                if x.get(kk, UNDEF) is not y.get(kk, UNDEF) and not samev(x.get(kk, UNDEF), y.get(kk, UNDEF)): out.append(('dict', c, kk))
        else: out.append(('cell', c))
    return out


def samev(x, y):
    if isinstance(x, F) and isinstance(y, F): return x == y
    if isinstance(x, Arr) and isinstance(y, Arr): return x.cell == y.cell and x.view is y.view
    if isinstance(x, (Lst, Dct)) and type(x) is type(y): return x.cell == y.cell
    if isinstance(x, str): return x == y
    return False


def attempt_(I_, s, n, elt, st, vars_, k, mark):
    cur = st.copy(); cur.assume(le(0, k)); cur.assume(lt(k, n))
    base = len(cur.pc)
    names = set()
    for key, v in vars_.items():
        if v.closed is not None: set_state(I_, cur, key, v.closed(k))
        else:
            set_state(I_, cur, key, v.marker); names |= v.names
    start = cur.copy()
    outs = []
    for kd, v, s1 in I_.fork(cur, lambda: I_.assign(s.target, elt(k))):
        if kd != 'ok': outs.append((kd, v, s1)); continue
        outs += I_.block(s.body, s1)
    normal = [o[2] for o in outs if o[0] in ('normal', 'continue')]
    other = [o for o in outs if o[0] not in ('normal', 'continue')]
    for o in other:
        if o[0] != 'raise': raise Unsupported(f'{o[0]} inside a loop over a symbolic range')
    if not normal and not other: raise Unsupported('loop body unreachable')
    if not normal:
        raise Unsupported('loop body always raises')
    j = I_.join(normal, mark)
    if len(j) > 1: raise Unsupported('paths through the loop body cannot be merged: ' + getattr(I_, 'lastnomerge', ''))
    end = j[0][0]
    for f in end.facts[:]: pass
    # new modified keys
    mods = diff(I_, start, end, mark)
    newk = [q for q in mods if q not in vars_]
    for key in newk:
        pre = get_state(I_, st, key)
        v = vars_[key] = Var(key[0], pre)
        make_marker(I_, v, key, st)
    if newk: return None
    # try to resolve
    progress = False
    unresolved = [q for q, v in vars_.items() if v.closed is None]
    for key in unresolved:
        v = vars_[key]
        c = resolve(I_, v, key, get_state(I_, end, key), k, n, names, end, st, mark)
        if c is not None: v.closed = c; progress = True
    if any(v.closed is None for v in vars_.values()):
        if progress: return None
        bad = [str(q) for q, v in vars_.items() if v.closed is None]
        raise Unsupported(f'loop at {s.lineno}: no closed form for {bad}')
    if progress: return None                      # one more pass: closed forms must reproduce themselves
    # check: value after iteration k equals closed(k+1)  (holds by construction of the forms; structural double check for scalars)
    fin = st.copy()
    newfacts = [f for f in end.facts if f not in st.facts]
    for f in newfacts:
        if k.data in f.fv: f = bind('forall', k, n, f)
        fin.facts.append(f)
    for key, v in vars_.items(): set_state(I_, fin, key, v.closed(n))
    res = []
    if other:
        conds = []
        by = {}
        for kd, e, s1 in other: by.setdefault(e.kind, []).append((e, and_(*s1.pc[base:])))
        allc = or_(*[c for l in by.values() for _, c in l])
        if uses(allc, names): raise Unsupported('exception condition depends on loop state')
        for kind, l in by.items():
            s2 = st.copy(); c = or_(*[c for _, c in l])
            ex = not_(bind('forall', k, n, not_(c)))
            s2.assume(ex)
            for key, v in vars_.items(): set_state(I_, s2, key, UNDEF) if key[0] != 'cell' else None
            sv, I_.st = I_.st, s2
            d = I_.decide(FALSE) if False else None
            feas = I_.ctx(st).decide(ex) is not False
            I_.st = sv
            if feas: res.append(('raise', l[0][0], s2))
        fin.assume(bind('forall', k, n, not_(allc)))
    return [('normal', None, fin)] + res


def make_marker(I_, v, key, st):
    p = v.pre
    if isinstance(p, (F, T)):
        v.marker, v.names = fresh_like(p, 'm'); return
    if isinstance(p, AV):
        e, v.names = arr_marker(p, 'ma'); v.marker = AV(p.shape, e, p.dt); return
    if isinstance(p, SeqV):
        ln = fresh('ml', 'I'); v.names = {ln.data}
        v.marker = SeqV(n=ln, elt=lambda i: (_ for _ in ()).throw(Unsupported('element of a list read while it is built')))
        v.marker.cat = (v.marker, []) if False else None
        v.marker.is_marker = True
        v.lenvar = ln; return
    if isinstance(p, Arr) or isinstance(p, Lst) and key[0] != 'cell':
        # rebinding of a name: functional update of the array
        if isinstance(p, Arr): a = I_.avs(st, p)
        else:
            sq = st.content(p.cell)
            if sq.items is None or sq.items: v.marker = Poison('rebound list'); v.names = set(); return
            a = AV((0,), lambda i: NAN, 'f')
        ln = [fresh('md', 'I') for _ in a.shape]
        e, nm = arr_marker(a, 'mr'); v.names = nm | {x.data for x in ln}
        v.mav = AV(ln, e, a.dt); v.marker = mk(v.mav); v.lens = ln; v.preav = a
        return
    v.marker = Poison(f'{key} is used before it is set in the iteration'); v.names = set()


class Poison:
    def __init__(self, why): self.why = why
    def __getattr__(self, nm):
        raise Unsupported(self.why) if not nm.startswith('__') and nm not in ('merge', 'why') else AttributeError(nm)


def at(v, k, x): return vsubst(v, {k: I(x)})


def resolve(I_, v, key, new, k, n, names, end, st, mark):
    """closed form: function j -> value before iteration j, or None"""
    pre = v.pre
    # arrays rebound by extension
    if hasattr(v, 'mav'):
        return res_rebound(I_, v, key, new, k, n, names, end, st)
    if isinstance(new, (F, T)) and isinstance(pre, (F, T)) and isinstance(v.marker, (F, T)):
        return res_scalar(I_, v, new, k, n, names)
    if isinstance(new, AV): return res_array(I_, v, new, k, n, names)
    if isinstance(new, SeqV): return res_list(I_, v, new, k, n, names)
    # a temporary: set in every iteration before it is read
    return res_temp(I_, v, key, new, k, n, names, end, st, mark)


def res_temp(I_, v, key, new, k, n, names, end, st, mark):
    if isinstance(new, (F, T, tuple)):
        if uses(new, names): return None
        def closed(j):
            j = I(j)
            w = at(new, k, sub(j, 1))
            if j is k: return Poison(f'{key} read before it is set')
            if v.pre is UNDEF or not isnum(v.pre) or not isnum(w): return w if I_.ctx(st).decide(gt(n, 0)) is True else UNDEF
            return s_where(gt(j, 0), w, v.pre)
        return closed
    if isinstance(new, (Arr, Lst, Dct, str)) or new is None or new is UNDEF or isinstance(new, (Obj, Fun, Nat)) or True:
        def closed(j):
            if j is k: return Poison(f'{key} read before it is set')
            return UNDEF
        return closed


def delta(new, m, names):
    """new = m + g -> g (None if not of that form)"""
    if new.op == 'ite' and not uses(new.args[0], names):
        a, b = delta(new.args[1], m, names), delta(new.args[2], m, names)
        return None if a is None or b is None else ite(new.args[0], a, b)
    g = sub(new, m)
    return None if uses(g, names) else g


def overwrite(new, m, names):
    """new = ite(c, g, m) -> (c, g)"""
    if new is m: return FALSE, m
    if new.op == 'ite' and not uses(new.args[0], names):
        a, b = overwrite(new.args[1], m, names), overwrite(new.args[2], m, names)
        if a is None or b is None: return None
        c = new.args[0]
        return or_(and_(c, a[0]), and_(not_(c), b[0])), ite(c, a[1], b[1])
    if uses(new, names): return None
    return TRUE, new


def res_scalar(I_, v, new, k, n, names):
    pre, m = v.pre, v.marker
    if isinstance(new, F) != isinstance(m, F):
        # int accumulators that become float
        if isinstance(new, F) and isinstance(m, T):
            v.pre = fl(pre); v.marker, v.names = fresh_like(v.pre, 'm'); return None
        return None
    if isinstance(m, T) and isinstance(new, T) and new.sort != m.sort: return None
    if not uses(new, names):
        def closed(j):
            j = I(j)
            if isc(j) and j.data == 0: return pre
            return s_where(gt(j, 0), at(new, k, sub(j, 1)), pre)
        return closed
    if isinstance(m, T):
        if m.sort == 'B':
            own = v.names
            f1, f0 = subst(new, {m: TRUE}), subst(new, {m: FALSE})
            if uses(f1, names) or uses(f0, names): return None
            if isc(f1) and f1.data: return lambda j: or_(pre, not_(bind('forall', k, I(j), not_(f0))))
            if isc(f0) and not f0.data: return lambda j: and_(pre, bind('forall', k, I(j), f1))
            return None
        g = delta(new, m, names)
        if g is not None: return lambda j: add(pre, bind('sum', k, I(j), g))
        ow = overwrite(new, m, names)
        if ow is not None: return last_write(pre, ow[0], ow[1], k)
        return None
    # floats
    g = delta(new.v, m.v, names)
    gn, gb = flagform(new.nan, m.nan, names), flagform(new.bad, m.bad, names)
    if g is not None and gn is not None and gb is not None:
        return lambda j: F(add(pre.v, bind('sum', k, I(j), g)), or_(pre.nan, not_(bind('forall', k, I(j), not_(gn)))), or_(pre.bad, not_(bind('forall', k, I(j), not_(gb)))))
    ow = overwrite(new.v, m.v, names)
    if ow is not None:
        c = ow[0]
        nn = subst_flag(new.nan, m.nan, c, names); bb = subst_flag(new.bad, m.bad, c, names)
        if nn is not None and bb is not None: return last_write(pre, c, F(ow[1], nn, bb), k)
    return None


def flagform(new, m, names):
    f1, f0 = subst(new, {m: TRUE}), subst(new, {m: FALSE})
    if f1 is TRUE and not uses(f0, names): return f0
    return None


def subst_flag(new, m, c, names):
    f1, f0 = subst(new, {m: TRUE}), subst(new, {m: FALSE})
    if uses(f1, names) or uses(f0, names): return None
    # must be the marker where c does not hold and independent of it where c holds
    import prove as PR
    ctx = PR.Ctx([])
    if ctx.decide(implies(not_(c), and_(f1, not_(f0)))) is True and ctx.decide(implies(c, eq(f1, f0))) is True: return f1
    return None


def last_write(pre, c, g, k):
    def closed(j):
        j = I(j)
        cnt = bind('sum', k, j, ite(c, I(1), I(0)))
        last = bind('sel', k, j, c, sub(cnt, 1), sort='I')
        return s_where(gt(cnt, 0), vsubst(g, {k: last}), pre)
    return closed


def res_array(I_, v, new, k, n, names):
    pre, m = v.pre, v.marker
    if not isinstance(pre, AV) or new.ndim != m.ndim: return None
    for a, b in zip(new.shape, m.shape):
        if a is not b: return None
    js = [fresh('j', 'I') for _ in pre.shape]
    x, y = new.elt(*js), m.elt(*js)
    own = v.names
    others = names - own
    if uses(x, others): return None
    form = wform(x, y, own)
    if form is not None:
        W, val = form
        if W is FALSE: return lambda j: pre
        if k.data in W.fv and not uses(W, own):
            rng = and_(*[and_(le(0, q), lt(q, d)) for q, d in zip(js, pre.shape)])
            pv = lambda jx: pre.elt(*jx)

            def closed(j):
                j = I(j)

                def e(*ix):
                    mm = dict(zip(js, ix))
                    Wx = subst(W, mm)
                    c, t = locate(Wx, k, j)
                    z = vsubst(vsubst(val, mm), {k: t})
                    return s_where(c, z, pre.elt(*ix))
                return AV(pre.shape, e, pre.dt)
            if not uses(val, own): return closed
            # accumulation on the element itself
            uniq = unique_k(I_, W, k, n, js, pre.shape)
            if uniq:
                val2 = replace_own(val, y, [pre.elt(*js)])
                if val2 is not None and not uses(val2, own):
                    val = val2; return closed
    # A[i] += g(k, i)
    if isinstance(x, F):
        g = delta(x.v, y.v, own); gn = flagform2(x.nan, y.nan, own); gb = flagform2(x.bad, y.bad, own)
        if g is not None and gn is not None and gb is not None and not uses(g, names):
            def closed(j):
                j = I(j)

                def e(*ix):
                    mm = dict(zip(js, ix)); p = pre.elt(*ix)
                    return F(add(p.v, bind('sum', k, j, subst(g, mm))), or_(p.nan, not_(bind('forall', k, j, not_(subst(gn, mm))))), or_(p.bad, not_(bind('forall', k, j, not_(subst(gb, mm))))))
                return AV(pre.shape, e, pre.dt)
            return closed
    else:
        if x.sort == 'I':
            g = delta(x, y, own)
            if g is not None and not uses(g, names):
                return lambda j: AV(pre.shape, lambda *ix: add(pre.elt(*ix), bind('sum', k, I(j), subst(g, dict(zip(js, ix))))), pre.dt)
    return None


def flagform2(new, m, own):
    f1, f0 = treplace(new, {m: TRUE}), treplace(new, {m: FALSE})
    if f1 is TRUE and not uses(f0, own): return f0
    return None


def replace_own(val, y, p):
    p = p[0]
    if isinstance(val, F):
        mm = {y.v: p.v, y.nan: p.nan, y.bad: p.bad}
        return F(*[treplace(z, mm) for z in (val.v, val.nan, val.bad)])
    return treplace(val, {y: p})


def unique_k(I_, W, k, n, js, dims):
    """at most one iteration writes an element"""
    k2 = fresh('it', 'I')
    import prove as PR
    hy = [le(0, k), lt(k, n), le(0, k2), lt(k2, n), W, subst(W, {k: k2})] + [h for q, d in zip(js, dims) for h in (le(0, q), lt(q, d))]
    c = I_.ctx().sub(*hy)
    return c.decide(eq(k, k2)) is True


def wform(x, y, own):
    """x = value where W, y elsewhere -> (W, value)"""
    if isinstance(x, F):
        if x == y: return FALSE, y
        r = overwrite2(x.v, y.v, own)
        if r is None: return None
        W, v = r
        if W is TRUE and not uses(x.nan, own): return TRUE, F(v, x.nan, x.bad)
        # flags follow the same condition
        nan = pull(x.nan, W, y.nan, own); bad = pull(x.bad, W, y.bad, own)
        if nan is None or bad is None:
            # conditions of the flags may be finer (only the NaN flag is written)
            W2 = or_(W, flagcond(x.nan, y.nan), flagcond(x.bad, y.bad))
            nan = pull(x.nan, W2, y.nan, own); bad = pull(x.bad, W2, y.bad, own)
            if nan is None or bad is None: return None
            W = W2
        return W, F(v, nan, bad)
    if x is y: return FALSE, y
    if x.sort == 'B':
        c = flagcond(x, y)
        z = pull(x, c, y, own)
        return (c, z) if z is not None else None
    return overwrite2(x, y, own)


def flagcond(new, m):
    """weakest syntactic condition under which new differs from m"""
    f1, f0 = treplace(new, {m: TRUE}), treplace(new, {m: FALSE})
    return not_(and_(f1, not_(f0)))


def pull(new, W, m, own):
    """value of the flag where W holds; None if outside W it is not the marker"""
    f1, f0 = treplace(new, {m: TRUE}), treplace(new, {m: FALSE})
    import prove as PR
    ctx = PR.Ctx([])
    if ctx.decide(implies(not_(W), and_(f1, not_(f0)))) is not True: return None
    if f1 is f0: return f1
    if ctx.decide(implies(W, eq(f1, f0))) is True: return f1
    return new if uses(new, own) else None


def overwrite2(new, m, own):
    if new is m: return FALSE, m
    if new.op == 'ite' and not uses(new.args[0], own):
        a, b = overwrite2(new.args[1], m, own), overwrite2(new.args[2], m, own)
        if a is None or b is None: return None
        c = new.args[0]
        W = or_(and_(c, a[0]), and_(not_(c), b[0]))
        v = a[1] if b[0] is FALSE else b[1] if a[0] is FALSE else ite(c, a[1], b[1])
        return W, v
    return TRUE, new


_lm = {}
def literals(c):
    """literals that the condition c implies (syntactically)"""
    r = _lm.get(c)
    if r is not None: return r
    if c.op == 'and':
        r = frozenset().union(*[literals(x) for x in c.args])
    elif c.op == 'not' and c.args[0].op == 'and':
        r = None
        for x in c.args[0].args:
            l = literals(not_(x)); r = l if r is None else r & l
        r = r | {c}
    elif isc(c): r = frozenset()
    else: r = frozenset([c])
    _lm[c] = r
    return r


def distribute(t):
    """products of sums multiplied out (integer terms)"""
    if t.op == 'add': return add(*[distribute(a) for a in t.args])
    if t.op == 'mul':
        out = [I(1)]
        for a in t.args:
            d = distribute(a); ts = d.args if d.op == 'add' else (d,)
            out = [mul(x, y) for x in out for y in ts]
            if len(out) > 200: return t
        return add(*out)
    return t


def linear(t, k):
    """t = a + m k with a, m free of k"""
    t = distribute(t)
    a, m = [], []
    for x in (t.args if t.op == 'add' else (t,)):
        if k.data not in x.fv: a.append(x); continue
        if x is k: m.append(I(1)); continue
        if x.op != 'mul': return None
        fs = list(x.args)
        if k not in fs: return None
        fs.remove(k)
        if any(k.data in f.fv for f in fs): return None
        m.append(mul(*fs) if fs else I(1))
    return (add(*a) if a else I(0)), (add(*m) if m else I(0))


def forced(W, k):
    """w with: W implies k = w (None if no such equation is found)"""
    ls = literals(W)
    best = None
    for l in ls:
        if l.op == 'eq0' and l.args[0].sort == 'I' and k.data in l.fv:
            r = linear(l.args[0], k)
            if r and isc(r[1]) and abs(r[1].data) == 1:
                w = mul(I(int(-r[1].data)), r[0])
                if best is None or w.h < best.h or w.h == best.h and len(w.fv) < len(best.fv): best = w
    if best is not None: return best
    lo, hi = [], []
    for l in ls:
        neg_ = l.op == 'not'; g = l.args[0] if neg_ else l
        if g.op != 'ge0' or g.args[0].sort != 'I' or k.data not in g.fv: continue
        z = g.args[0] if not neg_ else sub(neg(g.args[0]), 1)
        r = linear(z, k)
        if r is not None: lo.append(r)
    for a, m in lo:
        for b, m2 in lo:
            # 0 <= a - M k and 0 <= b + M k with a + b = M - 1
            if distribute(add(m, m2)) is I(0) and distribute(sub(add(a, b), sub(m2, 1))) is I(0): return fdiv(a, m2)
    return None


def locate(W, k, n):
    """last k in [0,n) with W"""
    if W.op != 'and' or not any(c.op == 'eq0' and c.args[0].sort == 'I' and k.data in c.fv for c in W.args):
        w = forced(W, k)
        if w is not None: return and_(le(0, w), lt(w, n), subst(W, {k: w})), w
    cs = list(W.args) if W.op == 'and' else [W]
    eqs, rest = [], []
    for c in cs:
        if c.op == 'eq0' and c.args[0].sort == 'I' and k.data in c.fv:
            d = c.args[0]
            ts = d.args if d.op == 'add' else (d,)
            hit = [a for a in ts if k.data in a.fv]
            if len(hit) == 1:
                cf, r = _coef(hit[0])
                if abs(cf) == 1: eqs.append((r, mul(I(int(-cf)), sub(d, hit[0])))); continue
        rest.append(c)
    if eqs:
        simple = [e for e in eqs if e[0] is k]
        if simple: use, left = [simple[0]], [e for e in eqs if e is not simple[0]]
        else: use, left = eqs, []
        c, t = solve_index(use, k, n)
        if not (t.op == 'bind' and t.data[0] == 'sel' and not simple and t.args[2] is not None and False):
            cond = and_(c, *[subst(x, {k: t}) for x in rest], *[eq(subst(q, {k: t}), i) for q, i in left])
            # with other conjuncts the last solution of the equations must be the only one
            if simple or not rest or t.op != 'bind' or t.data[0] != 'sel': return cond, t
    cnt = bind('sum', k, n, ite(W, I(1), I(0)))
    return gt(cnt, 0), bind('sel', k, n, W, sub(cnt, 1), sort='I')


def pieces(I_, ps, k, n, names):
    """guarded pieces appended in one iteration -> list [(cond, value)] free of markers"""
    for g, x in ps:
        if uses(g, names): return None
        if isnum(x) and uses(x, names): return None
    return ps


def res_list(I_, v, new, k, n, names):
    m = v.marker; pre = v.pre
    if not (new.cat and new.cat[0] is m):
        # the marker itself is the base when a list is extended once
        if new is m: return lambda j: pre
        return None
    ps = pieces(I_, new.cat[1], k, n, names)
    if ps is None: return None
    return extend(I_, ps, k, pre.n, lambda i: pre.elt(i), lambda nn, e: SeqV(n=nn, elt=e), names)


def vat(I_, x, k, t):
    """value x of iteration t"""
    if isinstance(x, (T, F, tuple)): return vsubst(x, {k: t})
    if isinstance(x, Arr): raise Unsupported('array piece')
    if hasattr(x, 'vsub'): return x.vsub({k: t})
    return x


def extend(I_, ps, k, n0, e0, make, names, snap=None):
    ps = [(g, x if not isinstance(x, Arr) else ('av', I_piece(I_, x))) for g, x in ps]

    def val(x, t):
        if isinstance(x, tuple) and x and x[0] == 'av':
            a = x[1]
            return mk(vsubst(a, {k: t}))
        if isinstance(x, AV): return vsubst(x, {k: t})
        if isinstance(x, str) or x is None: return x
        if hasattr(x, 'vsub'): return x.vsub({k: t})
        return vsubst(x, {k: t})
    if len(ps) == 1:
        g, x = ps[0]

        def closed(j):
            j = I(j)
            if g is TRUE: cnt = j; pos = lambda t: t
            else: cnt = bind('sum', k, j, ite(g, I(1), I(0))); pos = lambda t: bind('sel', k, j, g, t, sort='I')

            def e(i):
                if isc(n0) and n0.data == 0: return val(x, pos(i))
                new = val(x, pos(sub(i, n0)))
                c = lt(i, n0)
                if isc(c): return e0(i) if c.data else new
                return s_where(c, e0(i), new)
            return make(add(n0, cnt), e)
        return closed
    # exactly one of several guarded pieces is appended in each iteration
    allg = or_(*[g for g, _ in ps])
    excl = all(isc(and_(a, b)) and not and_(a, b).data for i, (a, _) in enumerate(ps) for b, _ in ps[:i])
    if excl and all(isnum(x) for _, x in ps):
        x = ps[-1][1]
        for g, y in reversed(ps[:-1]): x = s_where(g, y, x)
        return extend(I_, [(allg, x)], k, n0, e0, make, names)
    if all(g is TRUE for g, _ in ps):
        L = len(ps)

        def closed(j):
            j = I(j)

            def e(i):
                q, r = fdiv(sub(i, n0), L), mod(sub(i, n0), L)
                x = val(ps[-1][1], q)
                for w in range(L - 2, -1, -1): x = s_where(eq(r, w), val(ps[w][1], q), x)
                return x if isc(n0) and n0.data == 0 else s_where(lt(i, n0), e0(i), x)
            return make(add(n0, mul(j, L)), e)
        return closed
    raise Unsupported('list extended in several ways')


def I_piece(I_, x):
    if x.view is None and x.cell not in I_.cur_heap: return x.av0
    return I_.avs(I_.cur_state, x)


def res_rebound(I_, v, key, new, k, n, names, end, st):
    if not isinstance(new, Arr): return None
    a = I_.avs(end, new)
    if not (a.cat and a.cat[0] is v.mav):
        if a is v.mav: return lambda j: v.pre
        # rebinding without use of the old value: a temporary
        js = [fresh('j', 'I') for _ in a.shape]
        if not any(uses(d, names) for d in a.shape) and not uses(a.elt(*js), names):
            def closed(j):
                j = I(j)
                if j is k: return Poison(f'{key} read before it is set')
                if I_.ctx(st).decide(gt(n, 0)) is True: return mk(vsubst(a, {k: sub(j, 1)}))
                return UNDEF
            return closed
        return None
    ps = a.cat[1]
    if any(uses(g, names) for g, _ in ps): return None
    pa = v.preav
    if a.ndim == 1:
        ps = pieces(I_, ps, k, n, names)
        if ps is None: return None
        dt = pa.dt
        for _, x in ps: dt = promote(dt, dt_of(x))
        return extend(I_, [(g, cast(x, dt)) for g, x in ps], k, pa.shape[0], lambda i: cast(pa.elt(i), dt), lambda nn, e: mk(AV((nn,), e, dt)), names)
    if a.ndim == 2 and len(ps) == 1:
        g, row = ps[0]
        i, c = fresh('j', 'I'), fresh('j', 'I')
        if uses(row.elt(I(0), c), names): return None
        w = pa.shape[1]

        def closed(j):
            j = I(j)
            cnt = bind('sum', k, j, ite(g, I(1), I(0))); pos = lambda t: bind('sel', k, j, g, t, sort='I')
            if g is TRUE: cnt = j; pos = lambda t: t

            def e(r, q):
                x = row.elt(I(0), q)
                return s_where(lt(r, pa.shape[0]), pa.elt(r, q), vsubst(x, {k: pos(sub(r, pa.shape[0]))}))
            return mk(AV((add(pa.shape[0], cnt), w), e, pa.dt))
        return closed
    return None
