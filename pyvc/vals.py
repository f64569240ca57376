"""Values of the symbolic interpreter. Scalars: T of sort I or B, F (float: real value, NaN flag, 'bad' flag for an
unspecified non-finite value), str, None. Containers are handles whose contents live in the state's heap."""
from ir import *
import itertools

_cid = itertools.count(1)


class Unsupported(Exception):
    pass


class F:
    __slots__ = ('v', 'nan', 'bad')
    def __init__(self, v, nan=FALSE, bad=FALSE):
        if isc(nan) and nan.data: v = R(0)
        self.v, self.nan, self.bad = R(v), B(nan), B(bad)
    def __repr__(self): return f'F<{self.v!r}' + (f' nan:{self.nan!r}' if self.nan is not FALSE else '') + (f' bad:{self.bad!r}' if self.bad is not FALSE else '') + '>'
    def __eq__(self, o): return isinstance(o, F) and self.v is o.v and self.nan is o.nan and self.bad is o.bad
    def __hash__(self): return hash((self.v, self.nan, self.bad))


NAN = F(R(0), TRUE)


class Undef:
    """a name not bound on every path"""
    def __repr__(self): return 'Undef'


UNDEF = Undef()


class AV:
    """immutable contents of an array: shape (terms), element function of index terms, kind 'i' 'f' 'b' 'O'"""
    def __init__(self, shape, elt, dt, cat=None):
        self.shape = tuple(I(s) for s in shape); self._elt = elt; self.dt = dt; self.memo = {}
        self.cat = cat                                  # (AV, [(guard, piece value)]): an extension of another array
    @property
    def ndim(self): return len(self.shape)
    def elt(self, *ix):
        ix = tuple(I(i) for i in ix)
        r = self.memo.get(ix)
        if r is None: r = self.memo[ix] = self._elt(*ix)
        return r
    @property
    def size(self): return mul(I(1), *self.shape)
    def __repr__(self): return f'AV{self.shape}{self.dt}'


class Arr:
    """handle of an array; view: None or (shape, fwd, inv)"""
    def __init__(self, av, cell=None, view=None, np32=None):
        self.av0 = av; self.cell = cell or next(_cid); self.view = view
    def __repr__(self): return f'Arr#{self.cell}'


class SeqV:
    """contents of a list: concrete items followed by nothing, or n items given by elt"""
    def __init__(self, items=None, n=None, elt=None, cat=None):
        self.items = items; self._n = n; self._elt = elt; self.cat = cat; self.memo = {}
    @property
    def n(self): return I(len(self.items)) if self.items is not None else self._n
    def elt(self, i):
        if self.items is not None:
            if isc(I(i)): return self.items[int(I(i).data)]
            raise Unsupported('symbolic index into a concrete list')
        i = I(i)
        if i not in self.memo: self.memo[i] = self._elt(i)
        return self.memo[i]


class Lst:
    def __init__(self, sv, cell=None): self.sv0 = sv; self.cell = cell or next(_cid)
    def __repr__(self): return f'Lst#{self.cell}'


class Dct:
    def __init__(self, d=None, cell=None): self.d0 = dict(d or {}); self.cell = cell or next(_cid)


class Obj:
    """opaque object of a contract: attributes are python callables (interp, args, kwargs)"""
    def __init__(self, name, **methods): self.name = name; self.m = methods
    def __repr__(self): return f'Obj({self.name})'


class Fun:
    def __init__(self, node, mod, env=None, name=None): self.node, self.mod, self.env, self.name = node, mod, env, name or getattr(node, 'name', 'lambda')


class Nat:
    """native model of a library function"""
    def __init__(self, name): self.name = name
    def __repr__(self): return f'Nat({self.name})'


class RangeV:
    def __init__(self, n, elt): self.n, self.elt = I(n), elt


class SliceV:
    def __init__(self, a, b, s): self.a, self.b, self.s = a, b, s


# ---------------------------------------------------------------- scalars
def isnum(x): return isinstance(x, (T, F)) and (isinstance(x, F) or x.sort in 'IRB')


def fl(x):
    if isinstance(x, F): return x
    if isinstance(x, T): return F(toreal(x) if x.sort != 'R' else x)
    if isinstance(x, (bool, int, float, Fr)): return F(R(Fr(x)))
    raise Unsupported(f'not a number: {x!r}')


def it(x):
    if isinstance(x, T):
        return ite(x, I(1), I(0)) if x.sort == 'B' else x
    if isinstance(x, int): return I(x)
    raise Unsupported(f'not an integer: {x!r}')


def isint(x): return isinstance(x, T) and x.sort in 'IB'
def isflag(x): return isinstance(x, T) and x.sort == 'B'
def cint(x):
    x = x if isinstance(x, T) else I(x)
    return int(x.data) if isc(x) else None


def fop(f):
    def g(a, b):
        a, b = fl(a), fl(b)
        return F(f(a.v, b.v), or_(a.nan, b.nan), or_(a.bad, b.bad))
    return g


_fa, _fs, _fm = fop(add), fop(sub), fop(mul)
def s_add(a, b): return add(it(a), it(b)) if isint(a) and isint(b) and not (isflag(a) and isflag(b)) else add(it(a), it(b)) if isint(a) and isint(b) else _fa(a, b)
def s_sub(a, b): return sub(it(a), it(b)) if isint(a) and isint(b) else _fs(a, b)
def s_mul(a, b): return mul(it(a), it(b)) if isint(a) and isint(b) else _fm(a, b)


def s_div(a, b):
    a, b = fl(a), fl(b)
    z = eq(b.v, R(0))
    if z is FALSE: return F(div(a.v, b.v), or_(a.nan, b.nan), or_(a.bad, b.bad))
    nan = or_(a.nan, b.nan, and_(z, eq(a.v, R(0))))
    return F(div(a.v, b.v), nan, or_(a.bad, b.bad, and_(z, not_(nan))))


def s_fdiv(a, b):
    if isint(a) and isint(b):
        b = it(b)
        if isc(b) and b.data < 0: return fdiv(neg(it(a)), neg(b))
        return fdiv(it(a), b)
    q = s_div(a, b)
    return F(toreal(floor(q.v)), q.nan, q.bad)


def s_mod(a, b):
    if isint(a) and isint(b):
        b = it(b)
        if isc(b) and b.data < 0: return neg(mod(neg(it(a)), neg(b)))
        return mod(it(a), b)
    a, b = fl(a), fl(b); q = s_div(a, b)
    return F(sub(a.v, mul(b.v, toreal(floor(q.v)))), q.nan, q.bad)


def s_pow(a, b):
    if isint(b) and isc(it(b)): e = it(b).data
    elif isinstance(b, F) and isc(b.v) and b.nan is FALSE: e = b.v.data
    else:
        if isinstance(a, T) and isc(a) or isinstance(a, F): return F(uf('pow', [fl(a).v, fl(b).v], 'R'), or_(fl(a).nan, fl(b).nan), fl(a).bad)
        raise Unsupported('power with a symbolic exponent')
    if e == Fr(1, 2): return s_sqrt(a)
    if e.denominator != 1: return F(uf('pow', [fl(a).v, R(e)], 'R'), fl(a).nan, fl(a).bad)
    e = int(e)
    if isint(a) and isint(b) and e >= 0: return power(it(a), e)
    a = fl(a)
    if e >= 0: return F(power(a.v, e), a.nan, a.bad)
    return s_div(F(R(1)), F(power(a.v, -e), a.nan, a.bad))


def s_neg(a): return neg(it(a)) if isint(a) else F(neg(a.v), a.nan, a.bad)
def s_abs(a): return absr(it(a)) if isint(a) else F(absr(a.v), a.nan, a.bad)
def s_sqrt(a):
    a = fl(a)
    return F(sqrt(a.v), or_(a.nan, lt(a.v, R(0))), a.bad)
def s_exp(a): a = fl(a); return F(exp(a.v), a.nan, a.bad)
def s_sin(a): a = fl(a); return F(sin(a.v), a.nan, a.bad)
def s_log(a): a = fl(a); return F(uf('log', [a.v], 'R'), or_(a.nan, lt(a.v, R(0))), or_(a.bad, eq(a.v, R(0))))
def s_floor(a): return a if isint(a) else F(toreal(floor(a.v)), a.nan, a.bad)
def s_ceil(a): return a if isint(a) else F(neg(toreal(floor(neg(a.v)))), a.nan, a.bad)


def rint(v):
    f = floor(v); fr = sub(v, toreal(f))
    return ite(lt(fr, R(Fr(1, 2))), f, ite(lt(R(Fr(1, 2)), fr), add(f, 1), ite(eq(mod(f, 2), 0), f, add(f, 1))))


def s_rint(a): return a if isint(a) else F(toreal(rint(a.v)), a.nan, a.bad)
def trunc(v): return ite(le(R(0), v), floor(v), neg(floor(neg(v))))
def s_isnan(a): return a.nan if isinstance(a, F) else FALSE
def s_isfinite(a): return and_(not_(a.nan), not_(a.bad)) if isinstance(a, F) else TRUE


def s_cmp(op, a, b):
    if isflag(a) and isflag(b) and op in ('==', '!='):
        r = eq(a, b); return r if op == '==' else not_(r)
    if isint(a) and isint(b):
        a, b = it(a), it(b)
        return {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq, '!=': ne}[op](a, b)
    a, b = fl(a), fl(b)
    if op == '!=': return not_(s_cmp('==', a, b))
    r = {'<': lt, '<=': le, '>': gt, '>=': ge, '==': eq}[op](a.v, b.v)
    r = and_(not_(a.nan), not_(b.nan), r)
    bad = or_(a.bad, b.bad)
    if bad is not FALSE: r = and_(not_(a.nan), not_(b.nan), ite(bad, uf('cmpbad' + op, [a.v, b.v, a.bad, b.bad], 'B'), r))
    return r


def truth(x):
    if isinstance(x, T): return x if x.sort == 'B' else ne(x, 0)
    if isinstance(x, F): return or_(x.nan, x.bad, ne(x.v, R(0)))
    if x is None: return FALSE
    if isinstance(x, str): return B(len(x) > 0)
    if isinstance(x, bool): return B(x)
    raise Unsupported(f'truth of {x!r}')


def s_where(c, a, b):
    if a is b: return a
    c = B(c)
    if isc(c): return a if c.data else b
    if isinstance(a, T) and isinstance(b, T):
        if a.sort == b.sort: return ite(c, a, b)
        if a.sort in 'IB' and b.sort in 'IB': return ite(c, it(a), it(b))
    if isnum(a) and isnum(b):
        a, b = fl(a), fl(b)
        v = a.v if b.nan is TRUE else b.v if a.nan is TRUE else ite(c, a.v, b.v)
        return F(v, ite(c, a.nan, b.nan), ite(c, a.bad, b.bad))
    raise Unsupported(f'merge of {a!r} and {b!r}')


def cast(x, dt):
    if dt == 'f': return fl(x)
    if dt == 'i':
        if isinstance(x, F): return ite(or_(x.nan, x.bad), uf('intnan', [], 'I'), trunc(x.v))
        return it(x)
    if dt == 'b': return truth(x)
    return x


def dt_of(x):
    if isinstance(x, F): return 'f'
    if isinstance(x, T): return {'B': 'b', 'I': 'i', 'R': 'f'}[x.sort]
    return 'O'


def promote(a, b):
    o = 'bif'
    if 'O' in (a, b): return 'O'
    return o[max(o.index(a), o.index(b))]


# ---------------------------------------------------------------- substitution in values
def vsubst(x, m):
    if isinstance(x, T): return subst(x, m)
    if isinstance(x, F):
        return F(subst(x.v, m), subst(x.nan, m), subst(x.bad, m))
    if isinstance(x, tuple): return tuple(vsubst(y, m) for y in x)
    if isinstance(x, AV):
        def elt(*ix):
            js = [fresh('j', 'I') for _ in ix]
            y = vsubst(x.elt(*js), m)
            return vsubst(y, dict(zip(js, ix)))
        return AV([subst(s, m) for s in x.shape], elt, x.dt)
    if isinstance(x, Arr) and x.view is None: return Arr(vsubst(x.av0, m))      # only for handles never written (checked by the caller)
    return x


def vfv(x):
    if isinstance(x, T): return x.fv
    if isinstance(x, F): return x.v.fv | x.nan.fv | x.bad.fv
    if isinstance(x, tuple):
        r = frozenset()
        for y in x: r |= vfv(y)
        return r
    return frozenset()
