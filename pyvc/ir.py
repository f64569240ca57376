"""Terms: hash-consed, sorts B (Bool), I (Int), R (Real), L (opaque function body). Bound variables are named by binder
height, so alpha-equivalent terms are the same object. Real arithmetic is mathematical."""
from fractions import Fraction as Fr
import itertools
from math import gcd, isqrt

_tab = {}
_cnt = itertools.count(1)
_fresh = itertools.count(1)


class T:
    __slots__ = ('op', 'args', 'data', 'sort', 'id', 'fv', 'h', 'nm')

    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __bool__(self): raise TypeError('truth value of a symbolic term')


def _mk(op, args, data, sort):
    key = (op, data, sort, tuple(a.id for a in args))
    t = _tab.get(key)
    if t is not None: return t
    t = T(); t.op, t.args, t.data, t.sort, t.id, t.nm = op, args, data, sort, next(_cnt), None
    if op == 'var': t.fv = frozenset([data])
    elif op == 'bind':
        t.fv = args[0].fv | (args[1].fv - {data[1]})
        for a in args[2:]: t.fv = t.fv | a.fv
    elif not args: t.fv = frozenset()
    else:
        t.fv = args[0].fv
        for a in args[1:]:
            if not a.fv <= t.fv: t.fv = t.fv | a.fv
    t.h = max([a.h for a in args], default=0)
    if op == 'bind': t.h = max(t.h, args[1].h + 1)
    _tab[key] = t
    return t


def const(v, sort=None):
    if isinstance(v, bool): return _mk('const', (), v, 'B')
    if sort is None: sort = 'I' if isinstance(v, int) else 'R'
    return _mk('const', (), Fr(v), sort)


TRUE, FALSE = const(True), const(False)
def I(v): return v if isinstance(v, T) else const(int(v), 'I')
def R(v): return (toreal(v) if v.sort == 'I' else v) if isinstance(v, T) else const(Fr(v), 'R')
def B(v): return v if isinstance(v, T) else (TRUE if v else FALSE)
def var(name, sort): return _mk('var', (), (name, sort), sort)
def fresh(base, sort): return var(f'{base}!{next(_fresh)}', sort)
def isc(t): return t.op == 'const'


def co(v, like=None):
    """python number -> term"""
    if isinstance(v, T): return v
    if isinstance(v, bool): return B(v)
    if isinstance(v, int): return const(v, 'I')
    return const(Fr(v), 'R')


def _coef(t):
    """t = c * rest"""
    if t.op == 'mul' and isc(t.args[0]): return t.args[0].data, (t.args[1] if len(t.args) == 2 else _mk('mul', t.args[1:], None, t.sort))
    return Fr(1), t


def _scale(c, t):
    if c == 1: return t
    if c == 0: return const(Fr(0), t.sort)
    if isc(t): return const(c * t.data, t.sort)
    c2, r = _coef(t); c = c * c2
    if c == 1: return r
    if r.op == 'add': return add(*[_scale(c, a) for a in r.args])
    if r.op == 'mul': return _mk('mul', (const(c, t.sort),) + r.args, None, t.sort)
    return _mk('mul', (const(c, t.sort), r), None, t.sort)


def _sorts(xs):
    xs = [co(x) for x in xs]
    if any(x.sort == 'R' for x in xs): return [R(x) for x in xs], 'R'
    return xs, 'I'


def add(*xs):
    xs, s = _sorts(xs)
    k, lin = Fr(0), {}
    st = list(xs)
    while st:
        x = st.pop()
        if isc(x): k += x.data; continue
        if x.op == 'add': st.extend(x.args); continue
        c, r = _coef(x)
        lin[r] = lin.get(r, 0) + c
    out = [_scale(c, r) for r, c in sorted(lin.items(), key=lambda p: p[0].id) if c != 0]
    if k != 0 or not out: out.append(const(k, s))
    return out[0] if len(out) == 1 else _mk('add', tuple(out), None, s)


def neg(x): return _scale(Fr(-1), co(x))
def sub(a, b): return add(a, neg(b))


def mul(*xs):
    xs, s = _sorts(xs)
    k, fs = Fr(1), []
    st = list(xs)
    while st:
        x = st.pop()
        if isc(x): k *= x.data; continue
        if x.op == 'mul': st.extend(x.args); continue
        fs.append(x)
    if k == 0: return const(Fr(0), s)
    if not fs: return const(k, s)
    # a single conditional with constant arms is distributed
    if len(fs) == 1: return _scale(k, fs[0])
    fs.sort(key=lambda t: t.id)
    return _mk('mul', ((const(k, s),) if k != 1 else ()) + tuple(fs), None, s)


def power(x, n):
    if n == 0: return const(Fr(1), x.sort)
    return mul(*([x] * n))


def div(a, b):
    a, b = R(co(a)), R(co(b))
    if isc(b) and b.data != 0: return _scale(1 / b.data, a)
    if isc(a) and a.data == 0: return a
    return mul(a, inv(b))


def inv(b):
    if isc(b): return const(1 / b.data if b.data else Fr(0), 'R')       # convention: 0 at 0 (guarded by flags)
    if b.op == 'inv': return b.args[0]
    if b.op == 'mul': return mul(*[inv(x) for x in b.args])
    return _mk('inv', (b,), None, 'R')


def fdiv(a, b):
    a, b = I(a), I(b)
    if isc(b) and b.data == 1: return a
    if isc(a) and isc(b) and b.data != 0: return const(a.data // b.data, 'I')
    return _mk('fdiv', (a, b), None, 'I')


def mod(a, b):
    a, b = I(a), I(b)
    if isc(b) and b.data == 1: return const(0, 'I')
    if isc(a) and isc(b) and b.data != 0: return const(a.data % b.data, 'I')
    if a.op == 'add' and not isc(b):
        keep = [x for x in a.args if not (x is b or x.op == 'mul' and b in x.args)]
        if len(keep) < len(a.args): return mod(add(*keep) if keep else const(0, 'I'), b)
    return _mk('mod', (a, b), None, 'I')


def toreal(x):
    if x.sort == 'R': return x
    if x.sort == 'B': return ite(x, R(1), R(0))
    if isc(x): return const(x.data, 'R')
    if x.op == 'add': return add(*[toreal(a) for a in x.args])
    if x.op == 'mul': return mul(*[toreal(a) for a in x.args])
    if x.op == 'ite': return ite(x.args[0], toreal(x.args[1]), toreal(x.args[2]))
    if x.op == 'bind' and x.data[0] == 'sum':
        v, n, b = open_(x)
        return bind('sum', v, n, toreal(b))
    return _mk('toreal', (x,), None, 'R')


def floor(x):
    x = co(x)
    if x.sort == 'I': return x
    if isc(x): return const(x.data.__floor__(), 'I')
    ip, rp = [], []
    for a in (x.args if x.op == 'add' else (x,)):
        i = unreal(a)
        (ip if i is not None else rp).append(i if i is not None else a)
    if not rp: return add(*ip)
    rest = add(*rp)
    if isc(rest): return add(const(rest.data.__floor__(), 'I'), *ip)
    if rest.op == 'ite' and not ip: return ite(rest.args[0], floor(rest.args[1]), floor(rest.args[2]))
    if rest.op == 'add' and isc(rest.args[-1]):
        w = rest.args[-1].data.__floor__()
        if w: rest = add(rest, R(-w)); ip.append(const(w, 'I'))
    f = _mk('floor', (rest,), None, 'I')
    return add(f, *ip) if ip else f


def unreal(a):
    """the integer term of which a is the real value, if there is one"""
    if a.op == 'toreal': return a.args[0]
    if isc(a): return const(a.data, 'I') if a.data.denominator == 1 else None
    c, r = _coef(a)
    if c.denominator == 1 and r.op == 'toreal': return mul(const(c, 'I'), r.args[0])
    if a.op in ('add', 'mul'):
        xs = [unreal(x) for x in a.args]
        if all(x is not None for x in xs): return (add if a.op == 'add' else mul)(*xs)
    if a.op == 'ite':
        x, y = unreal(a.args[1]), unreal(a.args[2])
        if x is not None and y is not None: return ite(a.args[0], x, y)
    return None


def _norm_lin(d, both):
    """positive scaling (both: any non-zero scaling) of d to a canonical representative"""
    ts = [_coef(a) if not isc(a) else (a.data, None) for a in (d.args if d.op == 'add' else (d,))]
    lead = next(c for c, r in ts if r is not None)
    if d.sort == 'R': f = 1 / abs(lead)
    else:
        g = 0
        for c, r in ts:
            if r is not None: g = gcd(g, c.numerator)
        f = Fr(1, g)
    if both and lead < 0: f = -f
    return f, ts


def ge0(d):
    """0 <= d"""
    if isc(d): return B(d.data >= 0)
    if d.op == 'ite' and isc(d.args[1]) and isc(d.args[2]): return ite(d.args[0], ge0(d.args[1]), ge0(d.args[2]))
    f, ts = _norm_lin(d, False)
    if f != 1:
        if d.sort == 'I':
            out = [_scale(c * f, r) for c, r in ts if r is not None]
            k = sum(c for c, r in ts if r is None) * f
            d = add(*out, const((k if isinstance(k, Fr) else Fr(k)).__floor__(), 'I'))
        else: d = _scale(f, d)
    if d.sort == 'I':
        lead = next(c for c, r in (_coef(a) for a in (d.args if d.op == 'add' else (d,)) if not isc(a)))
        if lead < 0: return _mk('not', (_mk('ge0', (add(neg(d), -1),), None, 'B'),), None, 'B')
    else:
        lead = next(c for c, r in (_coef(a) for a in (d.args if d.op == 'add' else (d,)) if not isc(a)))
        if lead < 0: return _mk('le0', (neg(d),), None, 'B')
    return _mk('ge0', (d,), None, 'B')


def le(a, b): return ge0(sub(b, a))


def lt(a, b):
    a, b = co(a), co(b)
    if a.sort == 'I' and b.sort == 'I': return le(add(a, 1), b)
    return not_(le(b, a))


def ge(a, b): return le(b, a)
def gt(a, b): return lt(b, a)


def eq(a, b):
    a, b = co(a), co(b)
    if a is b: return TRUE
    if a.sort == 'B' or b.sort == 'B':
        a, b = B(a), B(b)
        if isc(a): return b if a.data else not_(b)
        if isc(b): return a if b.data else not_(a)
        if not_(a) is b: return FALSE
        if a.id > b.id: a, b = b, a
        return _mk('iff', (a, b), None, 'B')
    if a.sort not in 'IR' or b.sort not in 'IR': return _mk('eqo', (a, b), None, 'B')
    d = sub(a, b)
    if isc(d): return B(d.data == 0)
    if d.op == 'ite' and isc(d.args[1]) and isc(d.args[2]): return ite(d.args[0], eq(d.args[1], 0), eq(d.args[2], 0))
    if d.sort == 'R':
        u = unreal(d)
        if u is not None: d = u
    f, ts = _norm_lin(d, True)
    if f != 1:
        if d.sort == 'I' and any((c * f).denominator != 1 for c, r in ts): return FALSE
        d = add(*[_scale(c * f, r) if r is not None else const(c * f, d.sort) for c, r in ts])
    return _mk('eq0', (d,), None, 'B')


def ne(a, b): return not_(eq(a, b))


def not_(a):
    a = B(a)
    if isc(a): return B(not a.data)
    if a.op == 'not': return a.args[0]
    return _mk('not', (a,), None, 'B')


def and_(*xs):
    out, st = {}, list(xs)
    st.reverse()
    while st:
        x = B(st.pop())
        if isc(x):
            if not x.data: return FALSE
            continue
        if x.op == 'and': st.extend(reversed(x.args)); continue
        out[x] = 1
    for x in out:
        if not_(x) in out: return FALSE
    # absorption: x and not(x and y ..)
    ch = True
    while ch:
        ch = False
        for x in list(out):
            if x.op == 'not' and x.args[0].op == 'and':
                rest = [y for y in x.args[0].args if y not in out]
                if len(rest) < len(x.args[0].args):
                    del out[x]
                    n = not_(and_(*rest))
                    return and_(*out, n)
                if any(not_(y) in out for y in x.args[0].args):
                    del out[x]; ch = True
    if not out: return TRUE
    if len(out) == 1: return next(iter(out))
    return _mk('and', tuple(sorted(out, key=lambda t: t.id)), None, 'B')


def or_(*xs): return not_(and_(*[not_(x) for x in xs]))
def implies(a, b): return not_(and_(a, not_(b)))


def ite(c, a, b):
    c = B(c)
    if isc(c): return co(a) if c.data else co(b)
    a, b = co(a), co(b)
    if a is b: return a
    if a.sort == 'B' or b.sort == 'B': return or_(and_(c, a), and_(not_(c), b))
    if c.op == 'not': c, a, b = c.args[0], b, a
    if a.sort != b.sort: a, b = R(a), R(b)
    if a is b: return a
    if a.op == 'ite' and a.args[0] is c: a = a.args[1]
    if b.op == 'ite' and b.args[0] is c: b = b.args[2]
    if a is b: return a
    if b.op == 'ite' and b.args[1] is a: return ite(or_(c, b.args[0]), a, b.args[2])
    return _mk('ite', (c, a, b), None, a.sort)


def imin(a, b): return ite(le(a, b), a, b)
def imax(a, b): return ite(le(a, b), b, a)
def uf(name, args, sort):
    """uninterpreted function; a name ending in ~ is symmetric in its arguments"""
    a = [co(x) for x in args]
    return _mk('uf', tuple(sorted(a, key=lambda x: x.id) if name[-1] == '~' else a), name, sort)


# ---------------------------------------------------------------- binders
def subst(t, m):
    """m: {var term: term}"""
    names = {v.data: x for v, x in m.items()}
    memo = {}

    def go(t):
        if not (t.fv & names.keys()): return t
        r = memo.get(t)
        if r is not None: return r
        if t.op == 'var': r = names[t.data]
        elif t.op == 'bind':
            n = go(t.args[0]); ex = [go(a) for a in t.args[2:]]
            if t.args[1].fv & names.keys():
                v = fresh('b', 'I')
                body = subst1(t.args[1], t.data[1], v)
                r = bind(t.data[0], v, n, go(body), *ex, sort=t.sort)
            else: r = rebuild(t, [n, t.args[1]] + ex)
        else: r = rebuild(t, [go(a) for a in t.args])
        memo[t] = r
        return r
    return go(t)


def subst1(t, vdata, x): return subst(t, {_mk('var', (), vdata, vdata[1]): x})


def rebuild(t, a):
    o = t.op
    if o == 'add': return add(*a)
    if o == 'mul': return mul(*a)
    if o == 'inv': return inv(a[0])
    if o == 'fdiv': return fdiv(*a)
    if o == 'mod': return mod(*a)
    if o == 'toreal': return toreal(a[0])
    if o == 'floor': return floor(a[0])
    if o == 'ge0': return ge0(a[0])
    if o == 'le0': return ge0(neg(a[0]))
    if o == 'eq0': return eq(a[0], const(Fr(0), a[0].sort))
    if o == 'iff': return eq(*a)
    if o == 'not': return not_(a[0])
    if o == 'and': return and_(*a)
    if o == 'ite': return ite(*a)
    if o == 'uf': return fold_uf(t.data, a, t.sort)
    if o == 'bind':
        if a[1] is t.args[1]: return rebind(t.data, a, t.sort)
        v = fresh('b', 'I')
        return bind(t.data[0], v, a[0], subst1(a[1], t.data[1], v), *a[2:], sort=t.sort)
    return _mk(o, tuple(a), t.data, t.sort)


def rebind(data, a, sort):
    v = _mk('var', (), data[1], 'I')
    kind = data[0]
    if kind in ('sum', 'forall'):
        f = fresh('b', 'I')
        return bind(kind, f, a[0], subst1(a[1], data[1], f), *a[2:], sort=sort)
    return _mk('bind', tuple(a), data, sort)


def treplace(t, m, only=None):
    """replaces whole subterms (only inside terms with the free variable `only`)"""
    memo = {}

    def go(t):
        if t in m: return m[t]
        if not t.args or only is not None and only not in t.fv: return t
        r = memo.get(t)
        if r is None:
            a = [go(x) for x in t.args]
            r = memo[t] = t if all(x is y for x, y in zip(a, t.args)) else rebuild(t, a)
        return r
    return go(t)


def indicator(b):
    """the condition for a nested choice of 0s and 1s to be 1, else None"""
    if isc(b): return TRUE if b.data == 1 else FALSE if b.data == 0 else None
    if b.op != 'ite': return None
    x, y = indicator(b.args[1]), indicator(b.args[2])
    if x is None or y is None: return None
    c = b.args[0]
    return or_(and_(c, x), and_(not_(c), y)) if not (isc(x) or isc(y)) else and_(c, x) if y is FALSE else or_(not_(c), x) if y is TRUE else or_(c, y) if x is TRUE else and_(not_(c), y)


def bind(kind, v, n, body, *extra, sort=None):
    """kind in sum/forall/sel/argmin/argsort/lam/...: v ranges over 0..n-1"""
    n = I(n)
    body = co(body) if not isinstance(body, T) else body
    if v.data in body.fv and not isc(n): body = treplace(body, {ge0(v): TRUE, ge0(sub(sub(n, v), 1)): TRUE}, v.data)
    if kind in ('sum', 'forall'):
        r = over_selection(kind, v, n, body, sort)
        if r is not None: return r
    elif kind == 'sel':
        r = sel_of_sel(v, n, body, extra)
        if r is not None: return r
    if kind == 'sum' and body.op == 'ite':
        p = indicator(body)
        if p is not None: body = ite(p, const(Fr(1), body.sort), const(Fr(0), body.sort))
    if kind == 'forall':
        if isc(body): return TRUE if body.data else le(n, 0)
        if isc(n) and n.data <= 0: return TRUE
        if v.data not in body.fv: return or_(le(n, 0), body)
        if isc(n) and n.data == 1: return subst(body, {v: I(0)})
        if body.op == 'and' :
            return and_(*[bind('forall', v, n, b) for b in body.args])
        sort = 'B'
    elif kind == 'sum':
        if isc(body) and body.data == 0: return body
        if isc(n) and n.data <= 0: return const(Fr(0), body.sort)
        if v.data not in body.fv: return mul(body, toreal(imax(n, I(0))) if body.sort == 'R' else imax(n, I(0)))
        if isc(n) and n.data <= 6: return add(*[subst(body, {v: I(k)}) for k in range(int(n.data))])
        sort = body.sort
        # the selected index is given by an equation: a single term is left
        if body.op == 'ite' and isc(body.args[2]) and body.args[2].data == 0:
            e = solve_eq(body.args[0], v)
            if e is not None:
                w, rest = e
                return ite(and_(le(0, w), lt(w, n), subst(rest, {v: w})), subst(body.args[1], {v: w}), const(Fr(0), sort))
    assert sort
    name = ('#' + str(body.h + 1), 'I')
    if v.data != name:
        body = subst(body, {v: _mk('var', (), name, 'I')})
    return _mk('bind', (n, body) + tuple(co(e) for e in extra), (kind, name), sort)


def counted(n):
    """n = number of j < m with p(j) -> (m, sum term's variable, p)"""
    if n.op != 'bind' or n.data[0] != 'sum' or n.sort != 'I': return None
    b = n.args[1]
    if b.op != 'ite' or not (isc(b.args[1]) and isc(b.args[2])): return None
    if b.args[1].data == 1 and b.args[2].data == 0: p = b.args[0]
    elif b.args[1].data == 0 and b.args[2].data == 1: p = not_(b.args[0])
    else: return None
    return n.args[0], n.data[1], p


def through_sel(body, v, m, p, w):
    """body depends on v only through the v-th j < m with p(j): body as a function of that j (p over variable w)"""
    hit = []
    def find(t):
        if v.data not in t.fv or hit: return
        if t.op == 'bind' and t.data[0] == 'sel' and t.args[2] is v and t.args[0] is m: hit.append(t); return
        for a in t.args: find(a)
    find(body)
    if not hit: return None
    s = hit[0]
    k = fresh('b', 'I')
    if subst1(s.args[1], s.data[1], k) is not subst1(p, w, k): return None
    b = treplace(body, {s: k}, v.data)
    if v.data in b.fv: return None
    return k, b, subst1(p, w, k)


def over_selection(kind, v, n, body, sort):
    c = counted(n)
    if c is None or v.data not in body.fv: return None
    m, w, p = c
    r = through_sel(body, v, m, p, w)
    if r is None: return None
    k, b, pk = r
    if kind == 'forall': return bind('forall', k, m, implies(pk, b))
    return bind('sum', k, m, ite(pk, b, const(Fr(0), b.sort)), sort=b.sort)


def sel_of_sel(v, n, body, extra):
    """the j-th selected index, where j is itself the i-th position with q: the i-th index with both"""
    x = extra[0] if extra else None
    if not isinstance(x, T) or x.op != 'bind' or x.data[0] != 'sel': return None
    c = counted(x.args[0])
    if c is None or c[0] is not n: return None
    f = fresh('b', 'I')
    if subst1(c[2], c[1], f) is not subst(body, {v: f}): return None
    i = fresh('b', 'I')
    r = through_sel(subst1(x.args[1], x.data[1], i), i, n, c[2], c[1])
    if r is None: return None
    k, b, pk = r
    return bind('sel', k, n, and_(pk, b), x.args[2], sort='I')


def solve_eq(c, v):
    """c contains the conjunct v = w with w free of v -> (w, rest)"""
    cs = c.args if c.op == 'and' else (c,)
    for k, x in enumerate(cs):
        if x.op == 'eq0' and x.args[0].sort == 'I' and v.data in x.fv:
            d = x.args[0]
            ts = d.args if d.op == 'add' else (d,)
            hit = [a for a in ts if v.data in a.fv]
            if len(hit) == 1:
                cf, r = _coef(hit[0])
                if r is v and abs(cf) == 1:
                    w = _scale(-cf, sub(d, hit[0]))
                    return w, and_(*[y for j, y in enumerate(cs) if j != k])
    return None


def open_(t, base='k'):
    v = fresh(base, 'I')
    return v, t.args[0], subst1(t.args[1], t.data[1], v)


def forall(n, f, base='k'):
    v = fresh(base, 'I'); return bind('forall', v, n, f(v))


def exists(n, f, base='k'):
    v = fresh(base, 'I'); return not_(bind('forall', v, n, not_(f(v))))


def sum_(n, f, base='k'):
    v = fresh(base, 'I'); return bind('sum', v, n, f(v))


def count(n, f, base='k'): return sum_(n, lambda k: ite(f(k), I(1), I(0)), base)
def sel(n, f, t):
    v = fresh('k', 'I'); return bind('sel', v, n, f(v), t, sort='I')
def rank(n, f, i): return count(i, f)


def argmin(n, f):
    """first index at which f is least (n > 0)"""
    v = fresh('k', 'I')
    if isc(I(n)) and I(n).data == 1: return I(0)
    return bind('argmin', v, n, f(v), sort='I')


def argsort(n, f, t):
    """index of the t-th smallest (stable)"""
    v = fresh('k', 'I'); return bind('argsort', v, n, f(v), t, sort='I')


# ---------------------------------------------------------------- functions with folding
def fold_uf(name, a, sort):
    f = FOLD.get(name)
    if f: return f(*a)
    return uf(name, a, sort)


def exp(x):
    x = R(x)
    if isc(x) and x.data == 0: return R(1)
    return _mk('uf', (x,), 'exp', 'R')


def sqrt(x):
    x = R(x)
    if isc(x) and x.data >= 0:
        p, q = x.data.numerator, x.data.denominator
        if isqrt(p) ** 2 == p and isqrt(q) ** 2 == q: return R(Fr(isqrt(p), isqrt(q)))
    return _mk('uf', (x,), 'sqrt', 'R')


def sin(x):
    x = R(x)
    if isc(x) and x.data == 0: return R(0)
    return _mk('uf', (x,), 'sin', 'R')


def absr(x):
    x = co(x); return ite(ge0(x), x, neg(x))


FOLD = {'exp': exp, 'sqrt': sqrt, 'sin': sin}
PI = var('PI', 'R')


def show(t, d=0):
    o, a = t.op, t.args
    if d > 9: return '…'
    s = lambda x: show(x, d + 1)
    if o == 'const': return str(t.data)
    if o == 'var': return t.data[0]
    if o == 'add': return '(' + ' + '.join(map(s, a)) + ')'
    if o == 'mul': return '*'.join(map(s, a))
    if o == 'inv': return f'(1/{s(a[0])})'
    if o == 'ge0': return f'({s(a[0])} >= 0)'
    if o == 'le0': return f'({s(a[0])} <= 0)'
    if o == 'eq0': return f'({s(a[0])} == 0)'
    if o == 'not': return f'!{s(a[0])}'
    if o == 'and': return '(' + ' & '.join(map(s, a)) + ')'
    if o == 'ite': return f'[{s(a[0])} ? {s(a[1])} : {s(a[2])}]'
    if o == 'uf': return f'{t.data}({",".join(map(s, a))})'
    if o == 'bind': return f'{t.data[0]}<{t.data[1][0]}<{s(a[0])}>({s(a[1])})' + (f'@({",".join(map(s, a[2:]))})' if len(a) > 2 else '')
    if o == 'toreal': return s(a[0])
    return f'{o}({",".join(map(s, a))})'
