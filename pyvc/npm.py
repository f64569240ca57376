"""Model of the part of numpy / math / the builtins that the functions under contract use (trusted base: this file is the
assumed contract of the libraries; it is cross-checked against the real libraries by selftest.py)."""
import ast
import prove as PR
from vals import *
from ir import *
from ir import _mk, _coef
import interp as IP
from interp import PyExc, mk, mklist, mkseq, mkdict, Dead

N_, M_ = {}, {}


def nat(*names):
    def d(f):
        for n in names: N_[n] = f
        return f
    return d


def native(I_, name, a, kw):
    name = name.replace('numpy.', 'np.', 1) if name.startswith('numpy.') else name
    if name in I_.over: return I_.over[name](I_, a, kw)
    f = N_.get(name)
    if f is None: raise Unsupported(f'library function {name}')
    return f(I_, *a, **kw)


CONST = {'np.nan': NAN, 'np.pi': F(PI), 'math.pi': F(PI), 'np.inf': F(R(0), FALSE, TRUE), 'np.newaxis': None, 'math.nan': NAN, 'math.inf': F(R(0), FALSE, TRUE), 'np.NaN': NAN}
DT = {'np.float64': 'f', 'np.int64': 'i', 'builtins.float': 'f', 'builtins.int': 'i', 'builtins.bool': 'b', 'np.bool_': 'b', 'np.double': 'f', 'np.float_': 'f', 'np.int_': 'i', 'builtins.object': 'O', 'np.ndarray': 'arr'}


def dtype(x):
    if x is None: return None
    if isinstance(x, Nat):
        n = x.name.replace('numpy.', 'np.', 1)
        if n in DT: return DT[n]
    if isinstance(x, str):
        if x in ('float', 'float64', 'f8', 'd'): return 'f'
        if x in ('int', 'int64', 'i8'): return 'i'
        if x == 'bool': return 'b'
    if isinstance(x, tuple) and x and x[0] == 'dt': return x[1]
    raise Unsupported(f'dtype {x!r}')


# ---------------------------------------------------------------- helpers
def asav(I_, x):
    if isinstance(x, Arr): return I_.av(x)
    if isinstance(x, AV): return x
    if isnum(x): return AV((), lambda: x, dt_of(x))
    if isinstance(x, RangeV): return AV((x.n,), x.elt, 'i')
    if isinstance(x, (Lst, tuple)):
        s = I_.st.content(x.cell) if isinstance(x, Lst) else SeqV(items=list(x))
        if s.cat is not None and s.items is None and s._elt == I_.no_elt: raise Unsupported('list under construction')
        n = s.n
        if s.items is not None:
            if not s.items: return AV((0,), lambda i: NAN, 'f')
            subs = [asav(I_, y) for y in s.items]
            a0 = subs[0]
            for y in subs[1:]:
                if y.ndim != a0.ndim: raise Unsupported('ragged array')
                for p, q in zip(y.shape, a0.shape): need_eq(I_, p, q, 'ragged')
            dt = 'b'
            for y in subs: dt = promote(dt, y.dt)
            if len(subs) == 1:
                return AV((1,) + a0.shape, lambda i, *r: cast(a0.elt(*r), dt), dt)

            def elt(i, *r):
                c = cint(i)
                if c is not None: return cast(subs[c].elt(*r), dt)
                v = cast(subs[-1].elt(*r), dt)
                for j in range(len(subs) - 2, -1, -1): v = s_where(eq(i, j), cast(subs[j].elt(*r), dt), v)
                return v
            return AV((len(subs),) + a0.shape, elt, dt)
        k = fresh('q', 'I')
        y0 = s.elt(k)
        if isinstance(y0, (Arr, Lst, tuple, AV)):
            a0 = asav(I_, y0)
            for p in a0.shape:
                if k.data in p.fv: raise Unsupported('ragged array')
            return AV((n,) + a0.shape, lambda i, *r: asav(I_, s.elt(i)).elt(*r), a0.dt)
        return AV((n,), lambda i: s.elt(i), dt_of(y0))
    if x is None: return AV((), lambda: None, 'O')
    if isinstance(x, str): return AV((), lambda: x, 'O')
    if hasattr(x, 'asav'): return x.asav(I_)
    raise Unsupported(f'array of {x!r}')


def need_eq(I_, a, b, what='shape'):
    if a is b: return
    I_.require(eq(a, b), 'ValueError', what)


def is1(I_, n): return n is I(1) or (not isc(n) and I_.holds(eq(n, 1)))


def bdim(I_, a, b):
    """broadcast of two dimensions -> (dim, a stretched, b stretched)"""
    if a is b: return a, False, False
    if isc(a) and a.data == 1: return b, True, False
    if isc(b) and b.data == 1: return a, False, True
    if I_.holds(eq(a, b)): return a, False, False
    if is1(I_, a): return b, True, False
    if is1(I_, b): return a, False, True
    c = I_.choose([eq(a, b), and_(ne(a, b), eq(a, 1)), and_(ne(a, b), ne(a, 1), eq(b, 1)), and_(ne(a, b), ne(a, 1), ne(b, 1))])
    if c == 3: raise PyExc('ValueError', 'broadcast')
    return (a, False, False) if c == 0 else (b, True, False) if c == 1 else (a, False, True)


def broadcast(I_, *avs):
    nd = max(a.ndim for a in avs)
    shape = None; sts = [[] for _ in avs]
    dims = []
    for d in range(nd):
        cur = I(1)
        col = []
        for q, a in enumerate(avs):
            p = d - (nd - a.ndim)
            col.append(a.shape[p] if p >= 0 else None)
        cur = I(1)
        for c in col:
            if c is not None: cur, _, _ = bdim(I_, cur, c)
        dims.append(cur)
        for q, c in enumerate(col):
            sts[q].append(c is not None and c is not cur and not (isc(cur) and cur.data == 1) and (is1(I_, c)) and not I_.holds(eq(c, cur)))
    fs = []
    for q, a in enumerate(avs):
        off = nd - a.ndim
        def f(ix, a=a, off=off, st=sts[q]):
            return a.elt(*[I(0) if st[off + j] else ix[off + j] for j in range(a.ndim)])
        fs.append(f)
    return tuple(dims), fs


def scal(a):
    """0-d array -> scalar"""
    return a.elt() if a.ndim == 0 else mk(a)


def ew(I_, f, dt, *xs):
    """elementwise"""
    if all(isnum(x) for x in xs): return f(*xs)
    avs = [asav(I_, x) for x in xs]
    for a in avs:
        if a.dt == 'O': raise Unsupported('object array')
    if all(a.ndim == 0 for a in avs): return f(*[a.elt() for a in avs])
    if len(avs) == 1: a = avs[0]; return mk(AV(a.shape, lambda *ix: f(a.elt(*ix)), dt or a.dt))
    shape, fs = broadcast(I_, *avs)
    if dt is None:
        dt = 'b'
        for a in avs: dt = promote(dt, a.dt)
    return mk(AV(shape, lambda *ix: f(*[g(ix) for g in fs]), dt))


# ---------------------------------------------------------------- operators
def fdt(a, b):
    return 'f' if 'f' in (a, b) else 'i'


def binop(I_, op, a, b, inplace=False):
    o = type(op)
    if isinstance(a, str) or isinstance(b, str):
        if o is ast.Add and isinstance(a, str) and isinstance(b, str): return a + b
        if o is ast.Mod: return '<format>'
        if hasattr(a, 'sadd'): return a.sadd(b)
        if hasattr(b, 'sradd'): return b.sradd(a)
        raise PyExc('TypeError', 'str operand')
    if hasattr(a, 'sadd') and o is ast.Add: return a.sadd(b)
    if hasattr(b, 'sradd') and o is ast.Add: return b.sradd(a)
    la, lb = isinstance(a, (Lst, tuple)), isinstance(b, (Lst, tuple))
    if (la or lb) and not isinstance(a, Arr) and not isinstance(b, Arr):
        if o is ast.Add and la and lb:
            if isinstance(a, tuple): return tuple(a) + tuple(b)
            sa, sb = I_.st.content(a.cell), I_.st.content(b.cell)
            if sa.items is not None and sb.items is not None: return mklist(sa.items + sb.items)
            return mkseq(SeqV(n=add(sa.n, sb.n), elt=lambda i: s_where(lt(i, sa.n), sa.elt(i), sb.elt(sub(i, sa.n)))))
        if o is ast.Mult:
            l, n = (a, b) if la else (b, a)
            if isinstance(n, F): 
                if not isinstance(l, tuple) and False: pass
                raise PyExc('TypeError', 'list * float')
            if isint(n):
                if isinstance(l, tuple): return tuple(l) * cint(n)
                s = I_.st.content(l.cell); c = cint(n)
                if s.items is not None and c is not None: return mklist(s.items * c)
                if s.items is not None and len(s.items) == 1: x = s.items[0]; return mkseq(SeqV(n=imax(it(n), I(0)), elt=lambda i: x))
                raise Unsupported('list repetition')
        if not (isnum(a) or isnum(b)): raise PyExc('TypeError', 'list operand')
    if a is None or b is None: raise PyExc('TypeError', 'None operand')
    pairs = {ast.Add: s_add, ast.Sub: s_sub, ast.Mult: s_mul, ast.Div: s_div, ast.FloorDiv: s_fdiv, ast.Mod: s_mod, ast.Pow: s_pow}
    if o is ast.MatMult: return N_['np.dot'](I_, a, b)
    if o in pairs:
        f = pairs[o]
        if isnum(a) and isnum(b): return f(a, b)
        if not all(isnum(x) or isinstance(x, (Arr, Lst, tuple, RangeV)) or hasattr(x, 'asav') for x in (a, b)): raise Unsupported(f'operands {a!r} {b!r}')
        A, Bv = asav(I_, a), asav(I_, b)
        dt = 'f' if o is ast.Div else fdt(A.dt, Bv.dt)
        if o is ast.Pow and dt == 'i' and Bv.ndim == 0 and isc(it(Bv.elt())) and it(Bv.elt()).data < 0: raise PyExc('ValueError', 'integer power')
        if inplace and isinstance(a, Arr):
            shape, fs = broadcast(I_, A, Bv)
            for p, q in zip(shape, A.shape): need_eq(I_, p, q)
            if A.dt == 'i' and dt == 'f': raise PyExc('TypeError', 'casting')
            I_.set_av(a, AV(A.shape, lambda *ix: cast(f(fs[0](ix), fs[1](ix)), A.dt), A.dt)); return a
        return ew(I_, f, dt, A, Bv)
    if o in (ast.BitAnd, ast.BitOr, ast.BitXor):
        def g(x, y):
            if isflag(x) and isflag(y):
                return and_(x, y) if o is ast.BitAnd else or_(x, y) if o is ast.BitOr else not_(eq(x, y))
            if isinstance(x, F) or isinstance(y, F): raise PyExc('TypeError', 'bitwise operation on floats')
            # integers: only 0/1 values are modelled
            x, y = it(x), it(y)
            if isc(x) and isc(y): return I(int(x.data) & int(y.data) if o is ast.BitAnd else int(x.data) | int(y.data) if o is ast.BitOr else int(x.data) ^ int(y.data))
            if I_.holds(and_(le(0, x), le(x, 1), le(0, y), le(y, 1))):
                p, q = eq(x, 1), eq(y, 1)
                return ite(and_(p, q) if o is ast.BitAnd else or_(p, q) if o is ast.BitOr else not_(eq(p, q)), I(1), I(0))
            raise Unsupported('bitwise operation on integers')
        if inplace and isinstance(a, Arr):
            A, Bv = asav(I_, a), asav(I_, b); shape, fs = broadcast(I_, A, Bv)
            I_.set_av(a, AV(A.shape, lambda *ix: g(fs[0](ix), fs[1](ix)), A.dt)); return a
        return ew(I_, g, None, a, b)
    raise Unsupported(f'operator {o.__name__}')


def unop(I_, op, v):
    o = type(op)
    if o is ast.UAdd: return v
    if o is ast.USub: return ew(I_, s_neg, None, v)
    if o is ast.Invert:
        def inv_(x):
            if isflag(x): return not_(x)
            if isint(x): return sub(-1, it(x))
            raise PyExc('TypeError', '~float')
        return ew(I_, inv_, None, v)
    raise Unsupported('unary operator')


def compare(I_, op, a, b):
    o = type(op)
    if o in (ast.Is, ast.IsNot):
        if a is None or b is None: r = B(a is b)
        elif a is b: r = TRUE
        elif isinstance(a, T) and isinstance(b, T) and a.sort == 'B' and b.sort == 'B': r = eq(a, b)
        elif isinstance(a, (Arr, Lst, Dct)) or isinstance(b, (Arr, Lst, Dct)): r = B(getattr(a, 'cell', 0) == getattr(b, 'cell', -1) and getattr(a, 'view', None) is getattr(b, 'view', None))
        else: raise Unsupported('is')
        return r if o is ast.Is else not_(r)
    if o in (ast.In, ast.NotIn):
        r = contains(I_, a, b)
        return r if o is ast.In else not_(r)
    s = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>=', ast.Eq: '==', ast.NotEq: '!='}[o]
    if isinstance(a, str) or isinstance(b, str) or a is None or b is None:
        if isinstance(a, str) and isinstance(b, str): return B({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[s])
        if hasattr(a, 'scmp'): return a.scmp(s, b)
        if hasattr(b, 'scmp'): return b.scmp({'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(s, s), a)
        if s in ('==', '!='): return B(s == '!=') if not isinstance(a, Arr) and not isinstance(b, Arr) else N_raise('comparison of an array with a string')
        raise PyExc('TypeError', 'comparison')
    if isinstance(a, (tuple, Lst)) and isinstance(b, (tuple, Lst)):
        if s not in ('==', '!='): raise Unsupported('ordering of sequences')
        if type(a) is not type(b): return B(s == '!=')
        na, nb = I_.length(a), I_.length(b)
        if not I_.branch(eq(na, nb)): return B(s == '!=')
        c = cint(I_.simp(na))
        if c is None: raise Unsupported('comparison of sequences')
        _, ea = I_.iter(a); _, eb = I_.iter(b)
        r = and_(*[I_.truth(compare(I_, ast.Eq(), ea(I(k)), eb(I(k)))) for k in range(c)])
        return r if s == '==' else not_(r)
    if isinstance(a, (Lst, tuple)) and isnum(b) or isinstance(b, (Lst, tuple)) and isnum(a):
        if s in ('==', '!='): return B(s == '!=')
        raise PyExc('TypeError', 'comparison')
    if hasattr(a, 'scmp'): return a.scmp(s, b)
    return ew(I_, lambda x, y: s_cmp(s, x, y), 'b', a, b)


def N_raise(m): raise Unsupported(m)


def contains(I_, a, b):
    if isinstance(b, Dct): return B(I_.key(a) in I_.dct(b))
    if isinstance(b, str):
        if isinstance(a, str): return B(a in b)
        raise Unsupported('in')
    if isinstance(b, (tuple, Lst, Arr, RangeV)) or hasattr(b, 'iter'):
        if isinstance(b, Arr):
            av = I_.av(b)
            ks = [fresh('q', 'I') for _ in av.shape]
            c = s_cmp('==', a, av.elt(*ks)) if not isinstance(a, str) else N_raise('in')
            for k, n in zip(reversed(ks), reversed(av.shape)): c = not_(bind('forall', k, n, not_(c)))
            return c
        n, elt = I_.iter(b); c = cint(n)
        if c is not None: return or_(*[I_.truth(compare(I_, ast.Eq(), a, elt(I(k)))) for k in range(c)])
        if isnum(a): return exists(n, lambda k: s_cmp('==', a, elt(k)))
    raise Unsupported('in')


# ---------------------------------------------------------------- indexing
def slice_range(I_, s, n):
    """(start, length, step) of a slice of a sequence of length n"""
    st = cint(s.s) if s.s is not None else 1
    if st is None: raise Unsupported('symbolic slice step')

    def clip(x, lo, hi, dflt):
        if x is None: return dflt
        if isinstance(x, Arr): a = I_.av(x); x = a.elt(*[I(0)] * a.ndim)
        if isinstance(x, F): raise PyExc('TypeError', 'float in a slice')
        x = it(x)
        if I_.holds(and_(le(lo, x), le(x, hi))) and I_.holds(ge(x, 0)): return x
        if isc(x): x = add(x, n) if x.data < 0 else x
        else: x = ite(lt(x, 0), add(x, n), x)
        return I_.simp(ite(lt(x, lo), lo, ite(lt(hi, x), hi, x)))
    if st > 0:
        a = clip(s.a, I(0), n, I(0)); b = clip(s.b, I(0), n, n)
        m = I_.simp(pos0(I_, sub(b, a)))
        if st != 1: m = I_.simp(imax(fdiv(add(sub(b, a), st - 1), st), I(0)))
        return a, m, I(st)
    a = clip(s.a, I(-1), sub(n, 1), sub(n, 1)); b = clip(s.b, I(-1), sub(n, 1), I(-1))
    return a, I_.simp(imax(fdiv(add(sub(a, b), -st - 1), -st), I(0))), I(st)


def view_index(I_, h, i):
    """h[i] for an integer term i (in range), a view"""
    a = I_.av(h)
    return mk_view(h, a, [('i', i)] + [('s', I(0), n, I(1)) for n in a.shape[1:]])


def mk_view(h, a, spec):
    """spec per axis of a: ('i', t) | ('s', start, len, step); plus ('n',) for a new axis"""
    shape = []
    plan = []
    for s in spec:
        if s[0] == 'n': shape.append(I(1)); plan.append(s)
        elif s[0] == 's': shape.append(s[2]); plan.append(s)
        else: plan.append(s)

    def f(*ix):
        out, j = [], 0
        for s in plan:
            if s[0] == 'n': j += 1
            elif s[0] == 'i': out.append(s[1])
            else: out.append(add(s[1], mul(ix[j], s[3]))); j += 1
        return tuple(out)

    def g(*b):
        c, ix, p = TRUE, [], 0
        for s in plan:
            if s[0] == 'n': ix.append(I(0)); continue
            x = b[p]; p += 1
            if s[0] == 'i': c = and_(c, eq(x, s[1]))
            else:
                st = cint(s[3])
                d = sub(x, s[1])
                if st == 1: y = d
                elif st == -1: y = neg(d)
                else: y = fdiv(d, st); c = and_(c, eq(mod(d, abs(st)), 0))
                c = and_(c, le(0, y), lt(y, s[2])) if not (s[1] is I(0) and st == 1 and s[2] is a.shape[p - 1]) else c
                ix.append(y)
        return c, tuple(ix)
    if h.view is None: view = (tuple(shape), f, g)
    else:
        _, f0, g0, *_ = h.view

        def f2(*ix): return f0(*f(*ix))

        def g2(*b):
            c0, m = g0(*b)
            if c0 is FALSE: return FALSE, None
            c1, ix = g(*m); return and_(c0, c1), ix
        view = (tuple(shape), f2, g2)
    return Arr(h.av0, h.cell, view)


def parse_index(I_, a, k):
    ks = list(k) if isinstance(k, tuple) else [k]
    ks = [asarr_index(I_, x) for x in ks]
    used = 0
    for x in ks:
        if x is None or x is Ellipsis: continue
        used += x[1].ndim if isinstance(x, tuple) and x[0] == 'm' else 1
    if used > a.ndim: raise PyExc('IndexError', 'too many indices')
    if Ellipsis in ks:
        p = ks.index(Ellipsis); ks[p:p + 1] = [SliceV(None, None, None)] * (a.ndim - used)
    else: ks += [SliceV(None, None, None)] * (a.ndim - used)
    return ks


def asarr_index(I_, x):
    if x is None or x is Ellipsis or isinstance(x, SliceV): return x
    if isinstance(x, T):
        if x.sort == 'B': raise Unsupported('boolean scalar index')
        return x
    if isinstance(x, F): raise PyExc('IndexError', 'float index')
    if isinstance(x, (Arr, Lst, tuple, RangeV)):
        v = asav(I_, x)
        if v.dt == 'b': return ('m', v)
        if v.dt == 'f':
            if isinstance(x, Lst) and I_.holds(eq(v.size, 0)): return ('f', AV(v.shape, lambda *i: I(0), 'i'))
            raise PyExc('IndexError', 'float array as index')
        if v.dt != 'i': raise Unsupported('index')
        if v.ndim == 0: return it(v.elt())
        return ('f', v)
    raise Unsupported(f'index {x!r}')


def nz(I_, m):
    """positions of the true elements of mask m: (count, [index functions per axis]) """
    if m.ndim == 1:
        n = m.shape[0]
        return nz1(I_, n, lambda k: m.elt(k))
    if m.ndim == 2:
        n, w = m.shape
        if isc(n) and n.data == 1:
            c, (g,) = nz1(I_, w, lambda k: m.elt(I(0), k)); return c, [lambda t: I(0), g]
        if isc(w) and w.data == 1:
            c, (g,) = nz1(I_, n, lambda k: m.elt(k, I(0))); return c, [g, lambda t: I(0)]
        f = lambda k: m.elt(fdiv(k, w), mod(k, w))
        tot = mul(n, w)
        c = count(tot, f)
        return c, [lambda t: fdiv(sel(tot, f, t), w), lambda t: mod(sel(tot, f, t), w)]
    raise Unsupported('mask of rank 3')


def nz1(I_, n, f):
    """the same simplified condition for the count and the selection"""
    v = fresh('k', 'I')
    b = I_.ctx().sub(le(0, v), lt(v, n)).simp(f(v)) if not isc(n) and not I_.plain else f(v)
    g = lambda k: subst(b, {v: I(k)})
    return count(n, g), [lambda t: sel(n, g, t)]


def compress(I_, a, m):
    if a.ndim != m.ndim: raise Unsupported('mask rank')
    for p, q in zip(a.shape, m.shape):
        if p is not q: I_.require(eq(p, q), 'IndexError', 'mask shape')
    c, fs = nz(I_, m)
    return AV((c,), lambda t: a.elt(*[f(t) for f in fs]), a.dt)


def getitem(I_, h, k):
    a = I_.av(h)
    if isinstance(k, T) and k.sort == 'I' and a.ndim == 1:
        return a.elt(I_.index(k, a.shape[0]))
    ks = parse_index(I_, a, k)
    if len(ks) == 1 and isinstance(ks[0], tuple) and ks[0][0] == 'm':
        return mk(compress(I_, a, ks[0][1]))
    if not any(isinstance(x, tuple) for x in ks):
        spec, p = [], 0
        for x in ks:
            if x is None: spec.append(('n',)); continue
            n = a.shape[p]; p += 1
            if isinstance(x, SliceV):
                s = slice_range(I_, x, n); spec.append(('s', s[0], s[1], s[2]))
            else: spec.append(('i', I_.index(x, n)))
        if all(s[0] == 'i' for s in spec): return a.elt(*[s[1] for s in spec])
        return mk_view(h, a, spec)
    shape, fix = fancy(I_, a, ks)
    if not shape: return a.elt(*fix(()))
    return mk(AV(shape, lambda *ix: a.elt(*fix(ix)), a.dt))


def fancy(I_, a, ks, check=True):
    """(shape, result index -> index into a)"""
    # masks become integer arrays
    ks2 = []
    p = 0
    for x in ks:
        if isinstance(x, tuple) and x[0] == 'm':
            m = x[1]
            for q in range(m.ndim): I_.require(eq(a.shape[p + q], m.shape[q]), 'IndexError', 'mask shape') if a.shape[p + q] is not m.shape[q] else None
            c, fs = nz(I_, m)
            for f in fs: ks2.append(('f', AV((c,), f, 'i'), True))
            p += m.ndim
        else:
            ks2.append(x)
            if x is not None: p += 1
    adv = [j for j, x in enumerate(ks2) if isinstance(x, tuple) or isinstance(x, T)]
    arrs = [ks2[j][1] for j in adv if isinstance(ks2[j], tuple)]
    bshape, bf = broadcast(I_, *arrs) if len(arrs) > 1 else (arrs[0].shape, [lambda ix: arrs[0].elt(*ix)])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    shape, plan, q, p = [], [], 0, 0
    pos = None
    pre = []
    for j, x in enumerate(ks2):
        if j in adv:
            n = a.shape[p]; p += 1
            if pos is None: pos = len(pre)
            if isinstance(x, tuple):
                f = bf[q]; q += 1
                npos = len(x) == 2 and check and bounds(I_, x[1], n)
                plan.append(('a', (lambda ix, f=f, n=n: wrapneg(f(ix), n)) if len(x) == 2 and not npos else (lambda ix, f=f: it(f(ix))) if npos else f))
            else: plan.append(('c', I_.index(x, n)))
        elif x is None: pre.append(I(1)); plan.append(('n',))
        else:
            n = a.shape[p]; p += 1
            s = slice_range(I_, x, n); pre.append(s[1]); plan.append(('s', s[0], s[2]))
    if not contiguous: pos = 0
    shape = tuple(pre[:pos]) + tuple(bshape) + tuple(pre[pos:])
    nb = len(bshape)

    def fix(ix):
        bix = ix[pos:pos + nb]; rest = ix[:pos] + ix[pos + nb:]
        out, r = [], 0
        for x in plan:
            if x[0] == 'a': out.append(x[1](bix))
            elif x[0] == 'c': out.append(x[1])
            elif x[0] == 'n': r += 1
            else: out.append(add(x[1], mul(rest[r], x[2]))); r += 1
        return out
    fix.plan = plan; fix.pos = pos; fix.nb = nb; fix.bshape = bshape
    return shape, fix


def pos0(I_, x):
    return x if I_.holds(ge(x, 0)) else imax(x, I(0))


def wrapneg(i, n):
    i = it(i)
    if isc(i): return i if i.data >= 0 else add(i, n)
    if i.op == 'bind' and i.data[0] in ('sel', 'argmin', 'argsort'): return i
    if i.op in ('fdiv', 'mod') and i.args[0].op == 'bind': return i
    return ite(lt(i, 0), add(i, n), i)


def rng_all(av, f):
    ks = [fresh('q', 'I') for _ in av.shape]
    c = f(*[av.elt(*ks)])
    for k, n in zip(reversed(ks), reversed(av.shape)): c = bind('forall', k, n, c)
    return c


def bounds(I_, q, n):
    ok = rng_all(q, lambda x: and_(le(neg(n), it(x)), lt(it(x), n)))
    ks = [fresh('q', 'I') for _ in q.shape]
    x = it(q.elt(*ks)); w = wrapneg(x, n); rg = [and_(le(0, k), lt(k, m)) for k, m in zip(ks, q.shape)]
    c = I_.ctx().sub(*rg)
    if I_.plain and PR.Ctx(rg).decide(and_(le(0, x), lt(x, n))) is True: return True
    pos = w is x or c.decide(le(0, x)) is True
    if ok is TRUE or c.decide(and_(le(neg(n), x), lt(x, n))) is True: return pos
    I_.require(ok, 'IndexError', 'index array')
    return pos


def invert(q, t, m, target):
    """t' in [0,m) with q(t') = target (the last such), and the condition that there is one; q a term in t"""
    import loops
    return loops.solve_index([(q, target)], t, m)


def setitem(I_, h, k, v):
    a = I_.av(h)
    if a.dt == 'O': raise Unsupported('write to an object array')
    ks = parse_index(I_, a, k)
    if isinstance(v, (str,)) or v is None: raise PyExc('ValueError', 'element type')
    if a.dt == 'b' and False: pass
    vv = asav(I_, v)
    if vv.dt == 'O': raise Unsupported('object value')
    if len(ks) == 1 and isinstance(ks[0], tuple) and ks[0][0] == 'm':
        m = ks[0][1]
        for p, q in zip(a.shape, m.shape):
            if p is not q: I_.require(eq(p, q), 'IndexError', 'mask shape')
        if vv.ndim == 0 or all(is1(I_, s) for s in vv.shape):
            x = cast(vv.elt(*[I(0)] * vv.ndim), a.dt)
            put(I_, h, a, lambda *ix: m.elt(*ix), lambda *ix: x); return
        c, fs = nz(I_, m)
        need_eq(I_, vv.shape[0], c)
        if a.ndim == 1: rk = lambda i: count(i, lambda q: m.elt(q))
        else:
            w = a.shape[1]
            rk = lambda i, j: count(add(mul(i, w), j), lambda q: m.elt(fdiv(q, w), mod(q, w)))
        put(I_, h, a, lambda *ix: m.elt(*ix), lambda *ix: vv.elt(rk(*ix))); return
    if not any(isinstance(x, tuple) for x in ks):
        spec, p = [], 0
        for x in ks:
            if x is None: spec.append(('n',)); continue
            n = a.shape[p]; p += 1
            if isinstance(x, SliceV): s = slice_range(I_, x, n); spec.append(('s', s[0], s[1], s[2]))
            else: spec.append(('i', I_.index(x, n)))
        tv = mk_view(Arr(a), a, spec)
        shape, f, g = tv.view
        if not shape and vv.ndim > 0 and all(is1(I_, s) for s in vv.shape): vv0 = vv.elt(*[I(0)] * vv.ndim); vf = lambda ix: vv0
        elif not shape and vv.ndim > 0: raise PyExc('ValueError', 'setting an array element with a sequence')
        else: vf = fit(I_, vv, shape)

        def cond(*ix): return g(*ix)[0]
        def val(*ix): return vf(g(*ix)[1])
        put(I_, h, a, cond, val); return
    shape, fix = fancy(I_, a, ks)
    vf = fit(I_, vv, shape)
    plan = fix.plan
    nb = fix.nb
    import loops
    # flatten the broadcast index space
    ts = [fresh('t', 'I') for _ in fix.bshape]
    qs = [x[1](tuple(ts)) if x[0] == 'a' else None for x in plan if x[0] != 'n']

    def locate(ix):
        cond = TRUE; rest = []; eqs = []
        p = 0
        for x in plan:
            if x[0] == 'n': rest.append(I(0)); continue
            i = ix[p]; p += 1
            if x[0] == 'a': eqs.append((x[1](tuple(ts)), i))
            elif x[0] == 'c': cond = and_(cond, eq(i, x[1]))
            else:
                st = cint(x[2]); d = sub(i, x[1])
                if st not in (1,): raise Unsupported('fancy index with a step')
                rest.append(d)
                n = shape[len(rest) - 1 if len(rest) - 1 < fix.pos else len(rest) - 1 + nb]
                cond = and_(cond, le(0, d), lt(d, n)) if not (x[1] is I(0) and n is a.shape[p - 1]) else cond
        c2, tv = loops.solve_multi(eqs, ts, fix.bshape)
        full = tuple(rest[:fix.pos]) + tuple(tv) + tuple(rest[fix.pos:])
        sb = dict(zip(ts, tv))
        back = {}
        for q, i in eqs:
            q2 = subst(q, sb)
            if q2.op == 'bind' and q2 is not i: back[q2] = i       # under the condition the selected position is i itself
            if q2.op in ('fdiv', 'mod') and q2.args[0].op == 'bind': back[q2] = i
        return and_(cond, c2), full, back

    def value(*ix):
        _, full, back = locate(ix)
        x = vf(full)
        if not back: return x
        return F(*[loops.treplace(t, back) for t in (x.v, x.nan, x.bad)]) if isinstance(x, F) else loops.treplace(x, back)
    put(I_, h, a, lambda *ix: locate(ix)[0], value)


def fit(I_, vv, shape):
    """value broadcast to shape"""
    sh = list(vv.shape)
    while len(sh) > len(shape) and is1(I_, sh[0]): sh.pop(0)
    if len(sh) > len(shape): raise PyExc('ValueError', 'broadcast')
    drop = vv.ndim - len(sh); off = len(shape) - len(sh)
    ones = []
    for j, s in enumerate(sh):
        n = shape[off + j]
        if s is n: ones.append(False); continue
        if is1(I_, s): ones.append(True); continue
        if I_.holds(eq(s, n)): ones.append(False); continue
        c = I_.choose([eq(s, n), and_(ne(s, n), eq(s, 1)), and_(ne(s, n), ne(s, 1))])
        if c == 2: raise PyExc('ValueError', 'broadcast')
        ones.append(c == 1)

    def f(ix): return vv.elt(*([I(0)] * drop + [I(0) if o else ix[off + j] for j, o in enumerate(ones)]))
    return f


def put(I_, h, a, cond, val):
    dt = a.dt

    def elt(*ix):
        c = cond(*ix)
        if isc(c) and not c.data: return a.elt(*ix)
        x = cast(val(*ix), dt)
        if isc(c): return x
        return s_where(c, x, a.elt(*ix))
    I_.set_av(h, AV(a.shape, elt, dt))


# ---------------------------------------------------------------- attributes and methods
def attr(I_, o, name):
    if isinstance(o, Nat):
        full = o.name + '.' + name
        c = full.replace('numpy.', 'np.', 1)
        if c in CONST: return CONST[c]
        if full in ('os.path.sep', 'os.sep'): return '/'
        return Nat(full)
    if isinstance(o, Arr):
        if name == 'shape': return tuple(I_.av(o).shape)
        if name == 'size': return I_.av(o).size
        if name == 'ndim': return I(I_.av(o).ndim)
        if name == 'T': return transpose(I_, o)
        if name == 'dtype': return ('dt', I_.av(o).dt)
        if name in M_: return lambda I2, a, kw: method(I2, o, name, a, kw)
    if isnum(o):
        if name == 'T': return o
        if name == 'shape': return ()
        if name == 'size': return I(1)
        if name == 'ndim': return I(0)
    if hasattr(o, 'attr'): return o.attr(I_, name)
    if isinstance(o, Obj) and name in o.m:
        m = o.m[name]
        return m if not callable(m) else lambda I2, a, kw: m(I2, *a, **kw)
    if isinstance(o, (Dct, Lst, Arr, str, tuple)) : return lambda I2, a, kw: method(I2, o, name, a, kw)
    if o is None: raise PyExc('AttributeError', name)
    raise Unsupported(f'attribute {name} of {o!r}')


def transpose(I_, o):
    a = asav(I_, o)
    if a.ndim < 2: return o
    if isinstance(o, Arr):
        sh = tuple(reversed(a.shape))
        if o.view is None:
            return Arr(o.av0, o.cell, (sh, lambda *ix: tuple(reversed(ix)), lambda *b: (TRUE, tuple(reversed(b)))))
        _, f0, g0, *_ = o.view

        def g(*b):
            c, ix = g0(*b)
            return c, (tuple(reversed(ix)) if ix is not None else None)
        return Arr(o.av0, o.cell, (sh, lambda *ix: f0(*reversed(ix)), g))
    return mk(AV(reversed(a.shape), lambda *ix: a.elt(*reversed(ix)), a.dt))


def flatten_av(I_, a):
    if a.ndim == 1: return a
    if a.ndim == 0: return AV((1,), lambda i: a.elt(), a.dt)
    if a.ndim == 2:
        n, m = a.shape
        if is1(I_, m): return AV((n,), lambda i: a.elt(i, I(0)), a.dt)
        if is1(I_, n): return AV((m,), lambda i: a.elt(I(0), i), a.dt)
        cm = cint(m)
        return AV((I_.simp(mul(n, m)),), lambda i: a.elt(fdiv(i, m), mod(i, m)), a.dt)
    # drop unit axes first
    for d, s in enumerate(a.shape):
        if is1(I_, s):
            return flatten_av(I_, AV(a.shape[:d] + a.shape[d + 1:], lambda *ix, d=d: a.elt(*(ix[:d] + (I(0),) + ix[d:])), a.dt))
    if a.ndim == 3:
        n, m, q = a.shape
        mq = mul(m, q)
        return AV((mul(n, mq),), lambda i: a.elt(fdiv(i, mq), fdiv(mod(i, mq), q), mod(i, q)), a.dt)
    raise Unsupported('flatten')


def reshape_av(I_, a, shape):
    if len(shape) == 1 and isinstance(shape[0], (tuple, Lst)):
        s0 = shape[0]; shape = list(s0) if isinstance(s0, tuple) else I_.items(s0)
    shape = [it(s) for s in shape]
    neg_ = [j for j, s in enumerate(shape) if isc(s) and s.data == -1]
    known = mul(I(1), *[s for j, s in enumerate(shape) if j not in neg_])
    size = a.size
    if neg_:
        if isc(known) and known.data == 1: shape[neg_[0]] = size
        elif isc(known) and isc(size): shape[neg_[0]] = I(int(size.data) // int(known.data))
        else: 
            q = I_.simp(fdiv(size, known))
            # (x * k) // k
            c, r = _coef(size)
            if isc(known) and size.op == 'mul' and c.denominator == 1 and c % known.data == 0: q = mul(I(int(c / known.data)), r)
            elif size.op == 'mul' and known in size.args: q = mul(I(1), *[x for x in size.args if x is not known])
            I_.require(eq(mul(q, known), size), 'ValueError', 'reshape')
            shape[neg_[0]] = q
    else:
        if known is not size: I_.require(eq(known, size), 'ValueError', 'reshape')
    if len(shape) == a.ndim and all(p is q or I_.holds(eq(p, q)) for p, q in zip(shape, a.shape)): return a
    fl_ = flatten_av(I_, a)
    def flat(ix):
        k = I(0)
        for s, i in zip(shape, ix): k = add(mul(k, s), i)
        return k
    if a.ndim == 1: return AV(shape, lambda *ix: a.elt(flat(ix)), a.dt)
    if a.ndim == 2 and len(shape) == 3 and False: pass
    return AV(shape, lambda *ix: fl_.elt(flat(ix)), a.dt)


def red(I_, a, axis, f):
    """reduction: f(n, g) with g index -> element; axis None reduces everything"""
    if axis is not None:
        axis = cint(axis)
        if axis < 0: axis += a.ndim
        if axis >= a.ndim: raise PyExc('AxisError')
        n = a.shape[axis]
        rest = a.shape[:axis] + a.shape[axis + 1:]
        r = lambda *ix: f(n, lambda k: a.elt(*(ix[:axis] + (k,) + ix[axis:])))
        if not rest: return r()
        if any(x is Dead for x in ()): pass
        memo = r
        y = r(*[fresh('q', 'I') for _ in rest])
        return mk(AV(rest, r, dt_of(y)))
    v = flatten_av(I_, a)
    return f(v.shape[0], lambda k: v.elt(k))


def gsum(n, g, mask=None):
    k = fresh('k', 'I')
    x = g(k)
    if isinstance(x, F):
        if mask is not None:
            c = mask(x)
            return F(bind('sum', k, n, ite(c, x.v, R(0))), FALSE, not_(bind('forall', k, n, not_(and_(c, x.bad)))))
        return F(bind('sum', k, n, x.v), not_(bind('forall', k, n, not_(x.nan))), not_(bind('forall', k, n, not_(x.bad))))
    return bind('sum', k, n, it(x))


def gany(n, f):
    k = fresh('k', 'I'); return not_(bind('forall', k, n, not_(f(k))))


def gall(n, f):
    k = fresh('k', 'I'); return bind('forall', k, n, f(k))


def pair(c, v): return _mk('uf', (ite(c, I(1), I(0)), toreal(v) if v.sort == 'I' else v), 'pair', 'R')


def gargmin(n, g, mx=False, nan='first'):
    """index of the least element; nan: 'first' (numpy argmin: the first NaN wins), 'skip' (nanargmin)"""
    k = fresh('k', 'I'); x = g(k)
    v = fl(x).v if isinstance(x, F) else toreal(it(x))
    if mx: v = neg(v)
    if isinstance(x, F) and x.nan is not FALSE:
        ok = not_(x.nan)
        am = argminm(n, k, ok, v)
        if nan == 'skip': return am
        anyn = not_(bind('forall', k, n, ok))
        return ite(anyn, bind('sel', k, n, x.nan, I(0), sort='I'), am)
    if isc(n) and n.data == 1: return I(0)
    if isc(n) and 1 < n.data <= 3:
        at = lambda i: subst(v, {k: i}); r = I(0); best = at(I(0))
        for i in range(1, int(n.data)): c = lt(at(I(i)), best); r = ite(c, I(i), r); best = ite(c, at(I(i)), best)
        return r
    return bind('argmin', k, n, v, sort='I')


def argminm(n, k, ok, v):
    if isc(ok): return bind('argmin', k, n, v, sort='I') if not (isc(n) and n.data == 1) else I(0)
    return bind('argmin', k, n, pair(ok, v), sort='I')


def gmin(I_, n, g, mx=False, skip=False):
    I_.require(gt(n, 0), 'ValueError', 'reduction of an empty array')
    k = fresh('k', 'I'); x = g(k)
    if isinstance(x, F):
        am = gargmin(n, g, mx, 'skip')
        y = g(am)
        nan = gall(n, lambda j: fl(g(j)).nan) if skip else gany(n, lambda j: fl(g(j)).nan)
        bad = gany(n, lambda j: fl(g(j)).bad)
        return F(y.v, nan, bad)
    if isc(n): 
        r = it(g(I(0)))
        for j in range(1, int(n.data)): r = (imax if mx else imin)(r, it(g(I(j))))
        return r
    return it(g(gargmin(n, g, mx)))


def method(I_, o, m, a, kw):
    if isinstance(o, Nat): return native(I_, o.name + '.' + m, a, kw)
    if m == '__len__': return I_.length(o)
    if isinstance(o, Obj) or hasattr(o, 'attr'):
        return I_.call(attr(I_, o, m), a, kw)
    if m == '__getitem__': return I_.getitem(o, a[0])
    if isinstance(o, Arr) or isnum(o):
        f = M_.get(m)
        if f is None: raise Unsupported(f'array method {m}')
        return f(I_, o, *a, **kw)
    if isinstance(o, Lst):
        if m == 'append': I_.lappend(o, a[0]); return None
        if m == 'extend':
            for x in I_.items(a[0]) if isinstance(a[0], Lst) else a[0]: I_.lappend(o, x)
            return None
        if m == 'index':
            xs = I_.items(o)
            for j, x in enumerate(xs):
                if I_.branch(I_.truth(compare(I_, ast.Eq(), x, a[0]))): return I(j)
            raise PyExc('ValueError')
        if m == 'copy':
            s = I_.st.content(o.cell); return mkseq(s)
        if m == 'pop' and not a:
            xs = I_.items(o)
            if not xs: raise PyExc('IndexError')
            I_.st.heap[o.cell] = SeqV(items=xs[:-1]); return xs[-1]
        raise Unsupported(f'list method {m}')
    if isinstance(o, Dct):
        d = I_.dct(o)
        if m == 'get':
            k = I_.key(a[0]); return d[k] if k in d else (a[1] if len(a) > 1 else None)
        if m == 'keys': return tuple(d)
        if m == 'values': return tuple(d.values())
        if m == 'items': return tuple((k, v) for k, v in d.items())
        if m == 'pop':
            k = I_.key(a[0])
            if k not in d:
                if len(a) > 1: return a[1]
                raise PyExc('KeyError')
            dd = dict(d); v = dd.pop(k); I_.st.heap[o.cell] = dd; return v
        if m == 'update':
            dd = dict(d)
            if a: dd.update(I_.dct(a[0]))
            dd.update(kw); I_.st.heap[o.cell] = dd; return None
        if m == 'copy': return mkdict(d)
        raise Unsupported(f'dict method {m}')
    if isinstance(o, str):
        if m == 'join':
            xs = I_.items(a[0]) if isinstance(a[0], Lst) else a[0]
            if all(isinstance(x, str) for x in xs): return o.join(xs)
            r = xs[0]
            for x in xs[1:]: r = binop(I_, ast.Add(), binop(I_, ast.Add(), r, o), x)
            return r
        if m in ('lower', 'upper', 'strip', 'split', 'startswith', 'endswith', 'find', 'replace', 'format'):
            if m == 'format': return '<format>'
            r = getattr(o, m)(*[x if isinstance(x, str) else cint(x) for x in a], **{k: cint(v) if isinstance(v, T) else v for k, v in kw.items()})
            return mklist(r) if isinstance(r, list) else B(r) if isinstance(r, bool) else I(r) if isinstance(r, int) else r
    if isinstance(o, tuple) and m == 'index': pass
    if o is None: raise PyExc('AttributeError', m)
    raise Unsupported(f'method {m} of {o!r}')


def meth(*names):
    def d(f):
        for n in names: M_[n] = f
        return f
    return d


@meth('__len__')
def m_len(I_, o): return I_.length(o)
@meth('flatten', 'ravel')
def m_flat(I_, o, *a): return mk(copyav(flatten_av(I_, asav(I_, o))))
def copyav(a): return AV(a.shape, a.elt, a.dt)
@meth('reshape')
def m_reshape(I_, o, *s, **k): return mk(copyav(reshape_av(I_, asav(I_, o), s)))
@meth('transpose')
def m_T(I_, o): return transpose(I_, o)
@meth('copy')
def m_copy(I_, o): return mk(copyav(asav(I_, o))) if not isnum(o) else o
@meth('astype')
def m_astype(I_, o, t, **k):
    dt = dtype(t); a = asav(I_, o)
    if isnum(o): return cast(o, dt)
    return mk(AV(a.shape, lambda *ix: cast(a.elt(*ix), dt), dt))
@meth('any')
def m_any(I_, o, axis=None): return n_any(I_, o, axis)
@meth('all')
def m_all(I_, o, axis=None): return n_all(I_, o, axis)
@meth('tolist')
def m_tolist(I_, o):
    a = asav(I_, o)
    if a.ndim == 1: return mkseq(SeqV(n=a.shape[0], elt=lambda i: a.elt(i)))
    raise Unsupported('tolist')
@meth('item')
def m_item(I_, o):
    a = asav(I_, o); I_.require(eq(a.size, 1), 'ValueError'); return a.elt(*[I(0)] * a.ndim)
@meth('fill')
def m_fill(I_, o, v):
    a = asav(I_, o); x = cast(v, a.dt); I_.set_av(o, AV(a.shape, lambda *ix: x, a.dt))
@meth('squeeze')
def m_squeeze(I_, o):
    a = asav(I_, o)
    keep = [j for j, s in enumerate(a.shape) if not is1(I_, s)]
    for j in keep:
        if not I_.holds(ne(a.shape[j], 1)): raise Unsupported('squeeze')
    def elt(*ix):
        full = [I(0)] * a.ndim
        for j, i in zip(keep, ix): full[j] = i
        return a.elt(*full)
    return mk(AV([a.shape[j] for j in keep], elt, a.dt))
@meth('nonzero')
def m_nonzero(I_, o): return n_nonzero(I_, o)
for _n in 'sum mean min max argmin argmax argsort std var round cumsum dot diagonal repeat'.split():
    def _f(I_, o, *a, _n=_n, **k): return native(I_, {'min': 'np.min', 'max': 'np.max', 'diagonal': 'np.diag'}.get(_n, 'np.' + _n), [o] + list(a), k)
    M_[_n] = _f


@meth('sort')
def m_sort(I_, o, *a, **k):
    I_.set_av(o, I_.av(n_sort(I_, o)))


# ---------------------------------------------------------------- builtins
@nat('builtins.len')
def b_len(I_, x): return I_.length(x)
@nat('builtins.print', 'warnings.warn', 'warnings.filterwarnings', 'warnings.simplefilter', 'np.seterr')
def b_print(I_, *a, **k): return None
@nat('builtins.range')
def b_range(I_, a, b=None, s=None):
    if b is None: a, b = I(0), a
    for x in (a, b):
        if isinstance(x, F): raise PyExc('TypeError', 'range of a float')
    def sc(x):
        if isinstance(x, Arr): v = I_.av(x); return it(v.elt(*[I(0)] * v.ndim))
        return it(x)
    a, b = sc(a), sc(b); st = cint(s) if s is not None else 1
    if st is None: raise Unsupported('range step')
    n = sub(b, a) if st > 0 else sub(a, b)
    if abs(st) != 1: n = fdiv(add(n, abs(st) - 1), abs(st))
    n = imax(n, I(0)) if not I_.holds(ge(n, 0)) else n
    return RangeV(n, lambda i: add(a, mul(i, st)))
@nat('builtins.enumerate')
def b_enum(I_, x, start=None):
    n, e = I_.iter(x); s = it(start) if start is not None else I(0)
    return RangeV(n, lambda i: (add(i, s), e(i)))
@nat('builtins.zip')
def b_zip(I_, *xs):
    its = [I_.iter(x) for x in xs]
    n = its[0][0]
    for m, _ in its[1:]:
        if m is not n: n = n if I_.holds(le(n, m)) else m if I_.holds(le(m, n)) else imin(n, m)
    return RangeV(n, lambda i: tuple(e(i) for _, e in its))
@nat('builtins.reversed')
def b_rev(I_, x):
    n, e = I_.iter(x); return RangeV(n, lambda i: e(sub(sub(n, 1), i)))
@nat('builtins.list')
def b_list(I_, x=None):
    if x is None: return mklist([])
    n, e = I_.iter(x); c = cint(n)
    if c is not None: return mklist([e(I(k)) for k in range(c)])
    return mkseq(SeqV(n=n, elt=e))
@nat('builtins.tuple')
def b_tuple(I_, x=()):
    n, e = I_.iter(x); c = cint(n)
    if c is None: raise Unsupported('tuple')
    return tuple(e(I(k)) for k in range(c))
@nat('builtins.set')
def b_set(I_, x=()): raise Unsupported("set")
@nat('builtins.dict')
def b_dict(I_, *a, **k): return mkdict({**(I_.dct(a[0]) if a else {}), **k})
def scalar_of(I_, x):
    if isinstance(x, Arr):
        v = I_.av(x); I_.require(eq(v.size, 1), 'TypeError', 'only length-1 arrays'); return v.elt(*[I(0)] * v.ndim)
    return x
@nat('builtins.int', 'np.int64', 'np.int_')
def b_int(I_, x=None, *a):
    if hasattr(x, 'toint'): return x.toint(I_)
    if isinstance(x, str):
        try: return I(int(x))
        except ValueError: raise PyExc('ValueError', 'int()')
    x = scalar_of(I_, x)
    if isinstance(x, F):
        I_.require(not_(x.nan), 'ValueError', 'int of NaN'); I_.require(not_(x.bad), 'OverflowError', 'int of inf')
        return trunc(x.v)
    return it(x)
@nat('builtins.float', 'np.float64', 'np.double')
def b_float(I_, x=None):
    if isinstance(x, str):
        try: return I_.const(float(x))
        except ValueError: raise PyExc('ValueError')
    return fl(scalar_of(I_, x))
@nat('builtins.bool')
def b_bool(I_, x=None): return I_.truth(x)
@nat('builtins.str')
def b_str(I_, x=''):
    if isinstance(x, str): return x
    if hasattr(x, 'tostr'): return x.tostr(I_)
    import strs
    return strs.of_number(I_, x)
@nat('builtins.abs')
def b_abs(I_, x): return ew(I_, s_abs, None, x)
@nat('builtins.round')
def b_round(I_, x, nd=None):
    x = scalar_of(I_, x)
    if nd is None: return rint(fl(x).v) if isinstance(x, F) else it(x)
    if isint(x): return x
    if not isc(fl(x).v): I_.notes.add('round to decimals taken as an unspecified function')
    return F(uf('round', [fl(x).v, it(nd)], 'R'), fl(x).nan, fl(x).bad)
@nat('builtins.sum')
def b_sum(I_, x, start=None):
    n, e = I_.iter(x)
    if isinstance(x, Arr) and I_.av(x).ndim > 1:
        return native(I_, 'np.sum', [x], dict(axis=I(0)))
    c = cint(n)
    if c is not None and c < 30:
        r = start if start is not None else I(0)
        for k in range(c): r = binop(I_, ast.Add(), r, e(I(k)))
        return r
    r = gsum(n, e)
    return r if start is None else binop(I_, ast.Add(), start, r)
@nat('builtins.min', 'builtins.max')
def b_min(I_, *a, **k): raise Unsupported('min')
def _mm(mx):
    def f(I_, *a, **k):
        if k: raise Unsupported('min with key')
        if len(a) == 1:
            n, e = I_.iter(a[0]); c = cint(n)
            if c is None:
                if isinstance(a[0], Arr): return native(I_, 'np.max' if mx else 'np.min', list(a), {})
                return gmin(I_, n, e, mx)
            a = [e(I(j)) for j in range(c)]
        r = scalar_of(I_, a[0])
        for x in a[1:]:
            x = scalar_of(I_, x)
            r = s_where(s_cmp('>' if mx else '<', x, r), x, r)
        return r
    return f
N_['builtins.min'] = _mm(False); N_['builtins.max'] = _mm(True)
@nat('builtins.isinstance')
def b_isinstance(I_, x, t):
    ts = t if isinstance(t, tuple) else (t,)
    for q in ts:
        n = q.name if isinstance(q, Nat) else None
        if n is None: raise Unsupported('isinstance')
        n = n.split('.')[-1]
        if n == 'ndarray' and isinstance(x, Arr): return TRUE
        if n == 'list' and isinstance(x, Lst): return TRUE
        if n == 'dict' and isinstance(x, Dct): return TRUE
        if n == 'str' and (isinstance(x, str) or hasattr(x, 'scmp')): return TRUE
        if n == 'tuple' and isinstance(x, tuple): return TRUE
        if n == 'int' and isint(x): return TRUE
        if n in ('float', 'float64', 'floating') and isinstance(x, F): return TRUE
        if n == 'bool' and isflag(x): return TRUE
    return FALSE
@nat('builtins.any')
def b_any(I_, x):
    n, e = I_.iter(x); c = cint(n)
    if c is not None: return or_(*[I_.truth(e(I(k))) for k in range(c)])
    return gany(n, lambda k: I_.truth(e(k)))
@nat('builtins.all')
def b_all(I_, x):
    n, e = I_.iter(x); c = cint(n)
    if c is not None: return and_(*[I_.truth(e(I(k))) for k in range(c)])
    return gall(n, lambda k: I_.truth(e(k)))
@nat('builtins.sorted')
def b_sorted(I_, x, key=None, reverse=None): raise Unsupported('sorted')
@nat('builtins.slice')
def b_slice(I_, *a):
    a = list(a)
    if len(a) == 1: return SliceV(None, a[0], None)
    return SliceV(*(a + [None] * (3 - len(a))))
@nat('copy.deepcopy', 'copy.copy')
def c_deepcopy(I_, x):
    if isinstance(x, Arr): return mk(copyav(I_.av(x)))
    if isinstance(x, Lst):
        s = I_.st.content(x.cell)
        if s.items is not None: return mklist([c_deepcopy(I_, y) for y in s.items])
        return mkseq(SeqV(n=s.n, elt=s.elt))
    if isinstance(x, Dct): return mkdict({k: c_deepcopy(I_, v) for k, v in I_.dct(x).items()})
    if isnum(x) or isinstance(x, (str, tuple)) or x is None: return x
    raise Unsupported('copy')
@nat('time.time')
def t_time(I_): return F(fresh('time', 'R'))


# ---------------------------------------------------------------- math / ufuncs
def ufunc(name, f, dt=None, mathname=None):
    def g(I_, x, out=None, where=None, **k):
        if k or out is not None or where is not None: raise Unsupported(f'{name} with options')
        return ew(I_, f, dt, x)
    N_['np.' + name] = g
    if mathname:
        N_['math.' + mathname] = lambda I_, x: f(scalar_of(I_, x))


ufunc('abs', s_abs); ufunc('absolute', s_abs); ufunc('fabs', s_abs); ufunc('sqrt', s_sqrt, 'f'); ufunc('exp', s_exp, 'f', 'exp'); ufunc('sin', s_sin, 'f', 'sin'); ufunc('log', s_log, 'f', 'log')
ufunc('floor', lambda x: fl(s_floor(x)), 'f'); ufunc('ceil', lambda x: fl(s_ceil(x)), 'f'); ufunc('rint', s_rint, 'f')
ufunc('isnan', s_isnan, 'b', 'isnan'); ufunc('isfinite', s_isfinite, 'b', 'isfinite'); ufunc('isinf', lambda x: x.bad if isinstance(x, F) else FALSE, 'b', 'isinf')
ufunc('square', lambda x: s_mul(x, x)); ufunc('logical_not', lambda x: not_(truth(x)), 'b'); ufunc('negative', s_neg)
ufunc('radians', lambda x: s_mul(x, F(div(PI, R(180)))), 'f', 'radians'); ufunc('deg2rad', lambda x: s_mul(x, F(div(PI, R(180)))), 'f')
N_['math.fabs'] = lambda I_, x: s_abs(fl(x))
@nat('math.sqrt')
def ma_sqrt(I_, x):
    x = fl(scalar_of(I_, x))
    nonneg = le(R(0), x.v)
    if not obviously_nonneg(x.v): I_.require(or_(x.nan, nonneg), 'ValueError', 'math domain error')
    return F(sqrt(x.v), x.nan, x.bad)


def obviously_nonneg(t):
    if isc(t): return t.data >= 0
    if t.op == 'add': return all(obviously_nonneg(a) for a in t.args)
    if t.op == 'mul':
        c, _ = _coef(t)
        if c < 0: return False
        fs = [a for a in t.args if not isc(a)]
        cnt = {}
        for a in fs: cnt[a] = cnt.get(a, 0) + 1
        return all(e % 2 == 0 or obviously_nonneg(a) for a, e in cnt.items())
    if t.op == 'ite': return obviously_nonneg(t.args[1]) and obviously_nonneg(t.args[2])
    if t.op == 'inv': return obviously_nonneg(t.args[0])
    if t.op == 'uf' and t.data in ('exp', 'sqrt'): return True
    if t.op == 'bind' and t.data[0] == 'sum': return obviously_nonneg(t.args[1])
    return False


@nat('math.floor')
def ma_floor(I_, x): x = scalar_of(I_, x); return floor(fl(x).v) if isinstance(x, F) else it(x)
@nat('math.ceil')
def ma_ceil(I_, x): x = scalar_of(I_, x); return neg(floor(neg(fl(x).v))) if isinstance(x, F) else it(x)
@nat('math.pow')
def ma_pow(I_, a, b): return fl(s_pow(fl(a), b))
@nat('math.hypot', 'np.hypot')
def ma_hypot(I_, a, b): return ew(I_, lambda x, y: s_sqrt(s_add(s_mul(x, x), s_mul(y, y))), 'f', a, b)
@nat('np.round', 'np.around')
def n_round(I_, x, decimals=None):
    d = cint(decimals) if decimals is not None else 0
    if d == 0: return ew(I_, s_rint, None, x)
    sc = F(R(Fr(10) ** d))
    return ew(I_, lambda y: s_div(s_rint(s_mul(fl(y), sc)), sc), 'f', x)
@nat('np.remainder', 'np.mod')
def n_mod(I_, a, b): return ew(I_, s_mod, None, a, b)
@nat('np.power')
def n_pow(I_, a, b): return binop(I_, ast.Pow(), a, b)
for _nm, _op in dict(add=ast.Add, subtract=ast.Sub, multiply=ast.Mult, true_divide=ast.Div, floor_divide=ast.FloorDiv).items():
    N_['np.' + _nm] = lambda I_, a, b, _op=_op: binop(I_, _op(), a, b)
for _nm, _op in dict(less=ast.Lt, less_equal=ast.LtE, greater=ast.Gt, greater_equal=ast.GtE, equal=ast.Eq, not_equal=ast.NotEq).items():
    N_['np.' + _nm] = lambda I_, a, b, _op=_op: compare(I_, _op(), a, b)
@nat('np.divide')
def n_divide(I_, a, b, out=None, where=None):
    if where is None: return binop(I_, ast.Div(), a, b)
    A, Bv, W = asav(I_, a), asav(I_, b), asav(I_, where)
    if out is None: raise Unsupported('divide where without out')
    O = asav(I_, out)
    shape, fs = broadcast(I_, A, Bv, W, O)
    def elt(*ix):
        w = truth(fs[2](ix))
        x, y = fs[0](ix), fs[1](ix)
        q = s_div(x, y)
        yz = eq(fl(y).v, R(0))
        # where the division is masked out its flags do not matter
        q = F(q.v, and_(w, q.nan) if not isc(w) else q.nan, and_(w, q.bad) if not isc(w) else q.bad)
        return s_where(w, q, fl(fs[3](ix)))
    r = AV(shape, elt, 'f')
    if isinstance(out, Arr): I_.set_av(out, r); return out
    return mk(r)
@nat('np.logical_and')
def n_land(I_, a, b): return ew(I_, lambda x, y: and_(truth(x), truth(y)), 'b', a, b)
@nat('np.logical_or')
def n_lor(I_, a, b): return ew(I_, lambda x, y: or_(truth(x), truth(y)), 'b', a, b)
@nat('np.maximum', 'np.minimum')
def n_max2(I_, a, b): raise Unsupported('maximum')
def _m2(mx):
    def g(x, y):
        if isint(x) and isint(y): return (imax if mx else imin)(it(x), it(y))
        x, y = fl(x), fl(y)
        r = s_where(le(y.v, x.v) if mx else le(x.v, y.v), F(x.v), F(y.v))
        return F(r.v, or_(x.nan, y.nan), or_(x.bad, y.bad))
    return lambda I_, a, b: ew(I_, g, None, a, b)
N_['np.maximum'] = _m2(True); N_['np.minimum'] = _m2(False)
@nat('np.where')
def n_where(I_, c, a=None, b=None):
    if a is None: return n_nonzero(I_, c)
    C, A, Bv = asav(I_, c), asav(I_, a), asav(I_, b)
    if C.ndim == A.ndim == Bv.ndim == 0: return s_where(truth(C.elt()), A.elt(), Bv.elt())
    shape, fs = broadcast(I_, C, A, Bv); dt = promote(A.dt, Bv.dt)
    return mk(AV(shape, lambda *ix: cast(s_where(truth(fs[0](ix)), fs[1](ix), fs[2](ix)), dt), dt))
@nat('np.clip')
def n_clip(I_, x, lo, hi): return N_['np.minimum'](I_, N_['np.maximum'](I_, x, lo), hi)
@nat('np.nan_to_num')
def n_n2n(I_, x, nan=None): 
    z = fl(nan) if nan is not None else F(R(0))
    return ew(I_, lambda y: F(ite(y.nan, z.v, y.v), FALSE, y.bad) if isinstance(y, F) else y, None, x)
@nat('np.isclose', 'np.allclose')
def n_isclose(I_, *a, **k): raise Unsupported('isclose')


# ---------------------------------------------------------------- construction
def shape_of(I_, s):
    if isinstance(s, (tuple,)): r = [it(scalar_of(I_, x)) if not isinstance(x, F) else N_float() for x in s]
    elif isinstance(s, Lst): r = [it(scalar_of(I_, x)) for x in I_.items(s)]
    elif isinstance(s, F): N_float()
    elif isinstance(s, Arr):
        a = I_.av(s); r = [it(a.elt(I(k))) for k in range(cint(a.shape[0]))]
    else: r = [it(s)]
    for x in r: I_.require(ge(x, 0), 'ValueError', 'negative dimension')
    return r
def N_float(): raise PyExc('TypeError', 'float as dimension')
@nat('np.full')
def n_full(I_, s, v, dtype=None):
    sh = shape_of(I_, s); dt = globals()['dtype'](dtype)
    a = asav(I_, v); dt = dt or a.dt
    if a.ndim == 0: x = cast(a.elt(), dt); return mk(AV(sh, lambda *ix: x, dt))
    f = fit(I_, a, sh)
    return mk(AV(sh, lambda *ix: cast(f(ix), dt), dt))
@nat('np.zeros')
def n_zeros(I_, s, dtype=None, **k): return n_full(I_, s, F(R(0)), dtype or Nat('np.float64'))
@nat('np.ones')
def n_ones(I_, s, dtype=None, **k): return n_full(I_, s, F(R(1)), dtype or Nat('np.float64'))
@nat('np.empty')
def n_empty(I_, s, dtype=None, **k):
    sh = shape_of(I_, s); dt = globals()['dtype'](dtype) or 'f'
    nm = f'uninit!{next(IR_fresh)}'
    if not sh or dt == 'f': return mk(AV(sh, lambda *ix: F(uf(nm, ix, 'R'), uf(nm + 'n', ix, 'B')), 'f'))
    return mk(AV(sh, lambda *ix: uf(nm, ix, 'I' if dt == 'i' else 'B'), dt))
import ir as _ir
IR_fresh = _ir._fresh
def like(f):
    def g(I_, x, *a, dtype=None, **k):
        A = asav(I_, x); dt = globals()['dtype'](dtype) or A.dt
        return f(I_, tuple(A.shape), *a, dtype=('dt', dt))
    return g
N_['np.full_like'] = like(n_full); N_['np.zeros_like'] = like(n_zeros); N_['np.ones_like'] = like(n_ones); N_['np.empty_like'] = like(n_empty)
@nat('np.array', 'np.asarray', 'np.asanyarray', 'np.ascontiguousarray')
def n_array(I_, x, dtype=None, copy=None, **k):
    dt = globals()['dtype'](dtype)
    a = asav(I_, x)
    if dt and dt != a.dt: return mk(AV(a.shape, lambda *ix: cast(a.elt(*ix), dt), dt))
    return mk(copyav(a))
def _asarray(I_, x, dtype=None):
    if isinstance(x, Arr) and (dtype is None or globals()['dtype'](dtype) == I_.av(x).dt): return x
    return n_array(I_, x, dtype)
N_['np.asarray'] = _asarray
@nat('np.atleast_1d')
def n_al1(I_, x):
    a = asav(I_, x); return mk(AV((1,), lambda i: a.elt(), a.dt)) if a.ndim == 0 else x if isinstance(x, Arr) else mk(a)
@nat('np.atleast_2d')
def n_al2(I_, x):
    a = asav(I_, x)
    if a.ndim == 0: return mk(AV((1, 1), lambda i, j: a.elt(), a.dt))
    if a.ndim == 1: return mk(AV((1, a.shape[0]), lambda i, j: a.elt(j), a.dt))
    return x if isinstance(x, Arr) else mk(a)
@nat('np.arange')
def n_arange(I_, a, b=None, s=None, dtype=None):
    if b is None: a, b = I(0), a
    if s is None: s = I(1)
    a, b, s = scalar_of(I_, a), scalar_of(I_, b), scalar_of(I_, s)
    dt = globals()['dtype'](dtype)
    if isint(a) and isint(b) and isint(s):
        a, b, s = it(a), it(b), it(s); c = cint(s)
        if c is None: raise Unsupported('arange step')
        n = sub(b, a) if c > 0 else sub(a, b)
        if abs(c) != 1: n = fdiv(add(n, abs(c) - 1), abs(c))
        if not I_.holds(ge(n, 0)): n = imax(n, I(0))
        dt = dt or 'i'
        return mk(AV((n,), lambda i: cast(add(a, mul(i, s)), dt), dt))
    a, b, s = fl(a), fl(b), fl(s)
    I_.require(not_(or_(a.nan, b.nan, s.nan)), 'ValueError', 'arange of NaN'); I_.require(ne(s.v, R(0)), 'ZeroDivisionError', 'arange step')
    q = div(sub(b.v, a.v), s.v)
    n = neg(floor(neg(q)))
    if not I_.holds(ge(n, 0)): n = imax(n, I(0))
    dt = dt or 'f'
    return mk(AV((n,), lambda i: cast(F(add(a.v, mul(toreal(i), s.v))), dt), dt))
@nat('np.linspace')
def n_linspace(I_, a, b, n=None):
    n = it(n) if n is not None else I(50); a, b = fl(a), fl(b)
    return mk(AV((n,), lambda i: F(add(a.v, mul(toreal(i), div(sub(b.v, a.v), toreal(sub(n, 1))))), or_(a.nan, b.nan)), 'f'))
@nat('np.identity', 'np.eye')
def n_eye(I_, n): n = it(n); return mk(AV((n, n), lambda i, j: F(ite(eq(i, j), R(1), R(0))), 'f'))
@nat('np.diag')
def n_diag(I_, x):
    a = asav(I_, x)
    if a.ndim == 1:
        n = a.shape[0]
        z = F(R(0)) if a.dt == 'f' else I(0)
        return mk(AV((n, n), lambda i, j: s_where(eq(i, j), a.elt(i), z), a.dt))
    n = a.shape[0] if a.shape[0] is a.shape[1] or I_.holds(le(a.shape[0], a.shape[1])) else a.shape[1] if I_.holds(le(a.shape[1], a.shape[0])) else imin(*a.shape)
    return mk(AV((n,), lambda i: a.elt(i, i), a.dt))
N_['np.diagonal'] = n_diag
@nat('np.transpose')
def n_T(I_, x): return transpose(I_, x if isinstance(x, Arr) else mk(asav(I_, x)))
@nat('np.ravel')
def n_ravel(I_, x): return mk(copyav(flatten_av(I_, asav(I_, x))))
@nat('np.reshape')
def n_reshape(I_, x, s, *r): return mk(copyav(reshape_av(I_, asav(I_, x), [s])))
@nat('np.squeeze')
def n_squeeze(I_, x): return m_squeeze(I_, x)
@nat('np.flip', 'np.flipud')
def n_flip(I_, x, axis=None):
    a = asav(I_, x); ax = range(a.ndim) if axis is None else [cint(axis)]
    return mk(AV(a.shape, lambda *ix: a.elt(*[sub(sub(a.shape[j], 1), i) if j in ax else i for j, i in enumerate(ix)]), a.dt))
@nat('np.meshgrid')
def n_meshgrid(I_, x, y):
    a, b = asav(I_, x), asav(I_, y); sh = (b.shape[0], a.shape[0])
    return mklist([mk(AV(sh, lambda i, j: a.elt(j), a.dt)), mk(AV(sh, lambda i, j: b.elt(i), b.dt))])
@nat('np.tile')
def n_tile(I_, x, reps):
    a = asav(I_, x)
    r = [it(reps)] if isnum(reps) else [it(q) for q in (reps if isinstance(reps, tuple) else I_.items(reps))]
    nd = max(a.ndim, len(r)); r = [I(1)] * (nd - len(r)) + r
    sh = (I(1),) * (nd - a.ndim) + a.shape
    def elt(*ix):
        jx = []
        for i, s, q in zip(ix, sh, r):
            jx.append(i if isc(q) and q.data == 1 else I(0) if isc(s) and s.data == 1 else mod(i, s))
        return a.elt(*jx[nd - a.ndim:])
    return mk(AV([mul(s, q) for s, q in zip(sh, r)], elt, a.dt))
@nat('np.repeat')
def n_repeat(I_, x, n, axis=None):
    a = asav(I_, x); n = it(n)
    if axis is None:
        f = flatten_av(I_, a); return mk(AV((mul(f.shape[0], n),), lambda i: f.elt(fdiv(i, n)), a.dt))
    ax = cint(axis)
    return mk(AV([mul(s, n) if j == ax else s for j, s in enumerate(a.shape)], lambda *ix: a.elt(*[fdiv(i, n) if j == ax else i for j, i in enumerate(ix)]), a.dt))


def cat(I_, avs, axis):
    avs = list(avs)
    nd = avs[0].ndim
    for a in avs[1:]:
        if a.ndim != nd: raise PyExc('ValueError', 'concatenate dimensions')
        for j in range(nd):
            if j != axis: need_eq(I_, a.shape[j], avs[0].shape[j], 'concatenate')
    if axis >= nd: raise PyExc('ValueError', 'axis')
    dt = 'b'
    for a in avs: dt = promote(dt, a.dt)
    starts = [I(0)]
    for a in avs: starts.append(add(starts[-1], a.shape[axis]))
    live = [q for q, a in enumerate(avs) if not (isc(a.shape[axis]) and a.shape[axis].data == 0)]
    if not live: live = [0]

    def elt(*ix):
        i = ix[axis]
        at = lambda q: cast(avs[q].elt(*(ix[:axis] + (sub(i, starts[q]),) + ix[axis + 1:])), dt)
        v = at(live[-1])
        for q in reversed(live[:-1]):
            c = lt(i, starts[q + 1])
            if isc(c): v = at(q) if c.data else v
            else: v = s_where(c, at(q), v)
        return v
    sh = list(avs[0].shape); sh[axis] = starts[-1]
    r = AV(sh, elt, dt)
    if nd == 1 and all(isc(a.shape[0]) and a.shape[0].data == 1 for a in avs[1:]):
        base = avs[0]
        r.cat = (base, [(TRUE, a.elt(I(0))) for a in avs[1:]])
        if base.cat and False: pass
        if getattr(base, 'cat', None): r.cat = (base.cat[0], base.cat[1] + r.cat[1])
    elif axis == 0 and nd == 2 and all(isc(a.shape[0]) and a.shape[0].data == 1 for a in avs[1:]):
        base = avs[0]
        r.cat = (base.cat[0], base.cat[1] + [(TRUE, a) for a in avs[1:]]) if getattr(base, 'cat', None) else (base, [(TRUE, a) for a in avs[1:]])
    return r
@nat('np.concatenate')
def n_concat(I_, xs, axis=None):
    ys = seq(I_, xs); ax = cint(axis) if axis is not None else 0
    avs = [asav(I_, y) for y in ys]
    if not avs: raise PyExc('ValueError', 'need at least one array')
    if any(a.ndim == 0 for a in avs): raise PyExc('ValueError', 'zero-dimensional arrays cannot be concatenated')
    return mk(cat(I_, avs, ax if ax >= 0 else ax + avs[0].ndim))
def seq(I_, xs):
    if isinstance(xs, tuple): return list(xs)
    if isinstance(xs, Lst):
        return I_.items(xs)
    if isinstance(xs, Arr):
        a = I_.av(xs); c = cint(I_.simp(a.shape[0]))
        if c is not None: return [view_index(I_, xs, I(k)) for k in range(c)]
        raise SeqArr(a)
    raise Unsupported('sequence of arrays')
class SeqArr(Unsupported):
    def __init__(self, a): super().__init__('concatenation of a symbolic number of arrays'); self.a = a
_nc = n_concat
def n_concat2(I_, xs, axis=None):
    try: return _nc(I_, xs, axis)
    except SeqArr as e:
        if e.a.ndim == 2 and (axis is None or cint(axis) == 0):
            I_.require(gt(e.a.shape[0], 0), 'ValueError', 'need at least one array')
            return mk(copyav(flatten_av(I_, e.a)))
        raise
N_['np.concatenate'] = n_concat2
@nat('np.append')
def n_append(I_, x, v, axis=None):
    if axis is None: return mk(cat(I_, [flatten_av(I_, asav(I_, x)), flatten_av(I_, asav(I_, v))], 0))
    return mk(cat(I_, [asav(I_, x), asav(I_, v)], cint(axis)))
def al2(a): return a if a.ndim >= 2 else AV((1,) + a.shape, lambda i, *r: a.elt(*r), a.dt) if a.ndim == 1 else AV((1, 1), lambda i, j: a.elt(), a.dt)
@nat('np.vstack', 'np.row_stack')
def n_vstack(I_, xs): 
    ys = [asav(I_, y) for y in seq(I_, xs)]
    r = cat(I_, [al2(y) for y in ys], 0)
    if ys[0].ndim >= 2 and ys[0].cat is None and r.cat is not None: r.cat = (ys[0], r.cat[1])
    return mk(r)
@nat('np.hstack')
def n_hstack(I_, xs):
    ys = [asav(I_, y) for y in seq(I_, xs)]; ys = [AV((1,), lambda i, y=y: y.elt(), y.dt) if y.ndim == 0 else y for y in ys]
    return mk(cat(I_, ys, 0 if ys[0].ndim == 1 else 1))
@nat('np.column_stack')
def n_colstack(I_, xs):
    ys = [asav(I_, y) for y in seq(I_, xs)]
    ys = [y if y.ndim >= 2 else AV((y.shape[0], 1), lambda i, j, y=y: y.elt(i), y.dt) if y.ndim == 1 else AV((1, 1), lambda i, j, y=y: y.elt(), y.dt) for y in ys]
    return mk(cat(I_, ys, 1))
@nat('np.stack')
def n_stack(I_, xs, axis=None):
    ys = [asav(I_, y) for y in seq(I_, xs)]; ax = cint(axis) if axis is not None else 0
    ys = [AV(y.shape[:ax] + (I(1),) + y.shape[ax:], lambda *ix, y=y: y.elt(*(ix[:ax] + ix[ax + 1:])), y.dt) for y in ys]
    return mk(cat(I_, ys, ax))
@nat('np.expand_dims')
def n_expand(I_, x, axis):
    y = asav(I_, x); ax = cint(axis)
    return mk(AV(y.shape[:ax] + (I(1),) + y.shape[ax:], lambda *ix: y.elt(*(ix[:ax] + ix[ax + 1:])), y.dt))
@nat('np.insert')
def n_insert(I_, x, pos, v, axis=None):
    a, b = asav(I_, x), asav(I_, v)
    if axis is None: a = flatten_av(I_, a); ax = 0
    else: ax = cint(axis)
    p = asav(I_, pos)
    if p.ndim > 0 and not I_.holds(eq(p.size, 1)): raise Unsupported('insert at several places')
    p = it(p.elt(*[I(0)] * p.ndim))
    n = a.shape[ax]
    I_.require(and_(le(neg(n), p), le(p, n)), 'IndexError', 'insert')
    if not I_.holds(ge(p, 0)): p = ite(lt(p, 0), add(p, n), p)
    if a.ndim == 1: b = flatten_av(I_, b)
    else:
        if b.ndim == 0: b0 = b; b = AV([I(1) if j == ax else s for j, s in enumerate(a.shape)], lambda *ix: b0.elt(), b0.dt)
        elif b.ndim < a.ndim: raise Unsupported('insert')
        sh = [b.shape[j] if j == ax else s for j, s in enumerate(a.shape)]
        f = fit(I_, b, sh); b1 = b; b = AV(sh, lambda *ix: f(ix), b1.dt)
    m = b.shape[ax]

    def elt(*ix):
        i = ix[ax]; pre, post = ix[:ax], ix[ax + 1:]
        return s_where(lt(i, p), a.elt(*ix), s_where(lt(i, add(p, m)), cast(b.elt(*(pre + (sub(i, p),) + post)), a.dt), a.elt(*(pre + (sub(i, m),) + post))))
    return mk(AV([add(s, m) if j == ax else s for j, s in enumerate(a.shape)], elt, a.dt))
@nat('np.delete')
def n_delete(I_, x, idx, axis=None):
    a = asav(I_, x)
    if axis is None: a = flatten_av(I_, a); ax = 0
    else: ax = cint(axis); ax = ax + a.ndim if ax < 0 else ax
    n = a.shape[ax]
    q = asav(I_, idx) if not isinstance(idx, SliceV) else None
    if q is None:
        s = slice_range(I_, idx, n); q = AV((s[1],), lambda t: add(s[0], mul(t, s[2])), 'i')
    if q.dt == 'b':
        if q.ndim != 1: q = flatten_av(I_, q)
        need_eq(I_, q.shape[0], n); keep = lambda k: not_(q.elt(k))
    else:
        if q.dt == 'i' and q.ndim == 1 and isc(q.shape[0]) and 1 < q.shape[0].data <= 8:
            ds = [it(q.elt(I(j))) for j in range(int(q.shape[0].data))]
            if all(isc(x) and x.data >= 0 for x in ds):
                # a few known places: closed form
                ds = sorted({int(x.data) for x in ds})
                I_.require(lt(ds[-1], n), 'IndexError', 'delete')
                src = lambda t: add(t, *[ite(le(x - j, t), I(1), I(0)) for j, x in enumerate(ds)])
                if ds == list(range(len(ds))): src = lambda t: add(t, len(ds))
                return mk(AV([sub(n, len(ds)) if j == ax else s for j, s in enumerate(a.shape)], lambda *ix: a.elt(*(ix[:ax] + (src(ix[ax]),) + ix[ax + 1:])), a.dt))
        if q.dt == 'f' and not I_.holds(eq(q.size, 0)): raise PyExc('IndexError', 'float index')
        if q.dt == 'f': keep = lambda k: TRUE
        elif q.ndim == 0: p = I_.index(it(q.elt()), n); keep = lambda k: ne(k, p)
        else:
            qf = flatten_av(I_, q); pos = bounds(I_, qf, n)
            import loops
            t = fresh('t', 'I'); e = it(qf.elt(t)) if pos else wrapneg(qf.elt(t), n)
            keep = lambda k: not_(loops.solve_multi([(e, k)], [t], [qf.shape[0]])[0])
    k = fresh('k', 'I'); kc = keep(k)
    if isc(kc) and kc.data: return mk(copyav(a))
    m = count(n, keep)
    # a single deletion has a closed form
    if q.ndim == 0 and q.dt == 'i':
        m = sub(n, 1); src = lambda t: ite(lt(t, p), t, add(t, 1))
    else: src = lambda t: sel(n, keep, t)
    return mk(AV([m if j == ax else s for j, s in enumerate(a.shape)], lambda *ix: a.elt(*(ix[:ax] + (src(ix[ax]),) + ix[ax + 1:])), a.dt))
@nat('np.split')
def n_split(I_, x, k):
    a = asav(I_, x); m = it(k)
    if a.ndim == 1 and I_.holds(eq(m, a.shape[0])): return mkseq(SeqV(n=m, elt=lambda i: mk(AV((1,), lambda j: a.elt(i), a.dt))))
    raise Unsupported('split')


# ---------------------------------------------------------------- reductions
@nat('np.sum')
def n_sum(I_, x, axis=None, **k):
    if isinstance(x, Lst) and axis is None: x = mk(asav(I_, x))
    if isnum(x): return x
    return red(I_, asav(I_, x), axis, gsum)
@nat('np.nansum')
def n_nansum(I_, x, axis=None): return red(I_, asav(I_, x), axis, lambda n, g: gsum(n, g, lambda y: not_(y.nan)))
def mean_(n, g, skip=False):
    k = fresh('k', 'I'); x = fl(g(k))
    g2 = lambda j: fl(g(j))
    if skip and x.nan is not FALSE:
        c = toreal(count(n, lambda j: not_(g2(j).nan))); s = gsum(n, g2, lambda y: not_(y.nan))
    else: c = toreal(n); s = gsum(n, g2)
    return s_div(s, F(c)), F(c)
def var_(I_, n, g, skip=False, ddof=0):
    mu, c = mean_(n, g, skip)
    d = lambda j: s_sub(fl(g(j)), F(mu.v, FALSE, mu.bad))
    sq = lambda j: s_mul(d(j), d(j))
    k = fresh('k', 'I')
    s = gsum(n, sq, lambda y: not_(y.nan)) if skip and fl(g(k)).nan is not FALSE else gsum(n, sq)
    r = s_div(s, F(sub(c.v, ddof)))
    empty = le(sub(c.v, ddof), R(0))
    return F(r.v, or_(r.nan, mu.nan, empty), and_(r.bad, not_(empty)))
@nat('np.mean', 'np.average')
def n_mean(I_, x, axis=None, **k): return red(I_, asav(I_, x), axis, lambda n, g: mean_(n, g)[0])
@nat('np.nanmean')
def n_nanmean(I_, x, axis=None): return red(I_, asav(I_, x), axis, lambda n, g: mean_(n, g, True)[0])
@nat('np.var')
def n_var(I_, x, axis=None, ddof=None): return red(I_, asav(I_, x), axis, lambda n, g: var_(I_, n, g, False, cint(ddof) if ddof is not None else 0))
@nat('np.nanvar')
def n_nanvar(I_, x, axis=None, ddof=None): return red(I_, asav(I_, x), axis, lambda n, g: var_(I_, n, g, True, cint(ddof) if ddof is not None else 0))
@nat('np.std')
def n_std(I_, x, axis=None): return red(I_, asav(I_, x), axis, lambda n, g: s_sqrt(var_(I_, n, g)))
@nat('np.nanstd')
def n_nanstd(I_, x, axis=None): return red(I_, asav(I_, x), axis, lambda n, g: s_sqrt(var_(I_, n, g, True)))
for _nm, _mx, _sk in (('min', 0, 0), ('amin', 0, 0), ('max', 1, 0), ('amax', 1, 0), ('nanmin', 0, 1), ('nanmax', 1, 1)):
    N_['np.' + _nm] = lambda I_, x, axis=None, _mx=_mx, _sk=_sk: red(I_, asav(I_, x), axis, lambda n, g: gmin(I_, n, g, bool(_mx), bool(_sk)))
for _nm, _mx in (('argmin', 0), ('argmax', 1)):
    def _g(I_, x, axis=None, _mx=_mx):
        def f(n, g): I_.require(gt(n, 0), 'ValueError', 'argmin of an empty sequence'); return gargmin(n, g, bool(_mx))
        return red(I_, asav(I_, x), axis, f)
    N_['np.' + _nm] = _g
for _nm, _mx in (('nanargmin', 0), ('nanargmax', 1)):
    def _g(I_, x, axis=None, _mx=_mx):
        a = asav(I_, x)
        if axis is not None and a.ndim == 2:
            ax = cint(axis); n, o = a.shape[ax], a.shape[1 - ax]
            at = (lambda i, k: a.elt(k, i)) if ax == 0 else (lambda i, k: a.elt(i, k))
            if o is not None:
                q = fresh('q', 'I')
                cc = I_.ctx().sub(le(0, q), lt(q, o)).decide(gany(n, lambda k: not_(fl(at(q, k)).nan)))
                if cc is not True: I_.require(gall(o, lambda i: gany(n, lambda k: not_(fl(at(i, k)).nan))), 'ValueError', 'All-NaN slice')
            return mk(AV((o,), lambda i: gargmin(n, lambda k: at(i, k), bool(_mx), 'skip'), 'i'))
        def f(n, g):
            I_.require(gany(n, lambda k: not_(fl(g(k)).nan)), 'ValueError', 'All-NaN slice'); return gargmin(n, g, bool(_mx), 'skip')
        return red(I_, a, axis, f)
    N_['np.' + _nm] = _g
@nat('np.any')
def n_any(I_, x, axis=None):
    return red(I_, asav(I_, x), axis, lambda n, g: gany(n, lambda k: truth(g(k))))
@nat('np.all')
def n_all(I_, x, axis=None):
    a = asav(I_, x)
    if a.ndim == 2 and axis is None:
        i, j = fresh('k', 'I'), fresh('k', 'I'); return bind('forall', i, a.shape[0], bind('forall', j, a.shape[1], truth(a.elt(i, j))))
    return red(I_, a, axis, lambda n, g: gall(n, lambda k: truth(g(k))))
@nat('np.count_nonzero')
def n_cnz(I_, x, axis=None): return red(I_, asav(I_, x), axis, lambda n, g: count(n, lambda k: truth(g(k))))
@nat('np.cumsum')
def n_cumsum(I_, x, axis=None):
    a = asav(I_, x)
    if a.ndim == 1 and isc(a.shape[0]) and a.shape[0].data <= 64:
        acc, out = None, []
        for k in range(int(a.shape[0].data)):
            e = a.elt(I(k)); e = it(e) if a.dt in 'ib' else e
            acc = e if acc is None else s_add(acc, e); out.append(acc)
        return mk(asav(I_, tuple(out)))
    a = flatten_av(I_, asav(I_, x))
    return mk(AV(a.shape, lambda i: gsum(add(i, 1), lambda k: a.elt(k)), a.dt))
@nat('np.diff')
def n_diff(I_, x, axis=None, n=None):
    a = asav(I_, x); ax = cint(axis) if axis is not None else a.ndim - 1
    f = (lambda p, q: s_sub(p, q)) if a.dt != 'b' else (lambda p, q: not_(eq(p, q)))
    sh = [(sub(s, 1) if I_.holds(ge(s, 1)) else imax(sub(s, 1), I(0))) if j == ax else s for j, s in enumerate(a.shape)]
    return mk(AV(sh, lambda *ix: f(a.elt(*(ix[:ax] + (add(ix[ax], 1),) + ix[ax + 1:])), a.elt(*ix)), a.dt))
@nat('np.nonzero')
def n_nonzero(I_, x):
    a = asav(I_, x); m = AV(a.shape, lambda *ix: truth(a.elt(*ix)), 'b')
    c, fs = nz(I_, m)
    out = [AV((c,), f, 'i') for f in fs]
    if m.ndim == 2:
        for d, o in enumerate(out): o.nzm = (m, d)
    return tuple(mk(o) for o in out)
@nat('np.flatnonzero')
def n_fnz(I_, x): return n_nonzero(I_, mk(flatten_av(I_, asav(I_, x))))[0]
@nat('np.argwhere')
def n_argwhere(I_, x):
    a = asav(I_, x)
    if a.ndim == 0:
        c = truth(a.elt())
        return mk(AV((ite(c, I(1), I(0)), 0), lambda i, j: I(0), 'i'))
    m = AV(a.shape, lambda *ix: truth(a.elt(*ix)), 'b')
    if m.ndim == 3:
        for d, s in enumerate(m.shape):
            if is1(I_, s):
                m2 = AV(m.shape[:d] + m.shape[d + 1:], lambda *ix, d=d: m.elt(*(ix[:d] + (I(0),) + ix[d:])), 'b')
                c, fs = nz(I_, m2); fs = fs[:d] + [lambda t: I(0)] + fs[d:]; break
        else: raise Unsupported('argwhere of rank 3')
    else: c, fs = nz(I_, m)

    def elt(t, j):
        cj = cint(j)
        if cj is not None: return fs[cj](t)
        r = fs[-1](t)
        for q in range(len(fs) - 2, -1, -1): r = ite(eq(j, q), fs[q](t), r)
        return r
    return mk(AV((c, len(fs)), elt, 'i'))
@nat('np.argsort')
def n_argsort(I_, x, kind=None, axis=None):
    a = asav(I_, x)
    if a.ndim != 1: raise Unsupported('argsort of rank 2')
    if kind != 'stable': I_.notes.add('argsort without kind="stable": ties assumed to keep their order')
    n = a.shape[0]; k = fresh('k', 'I'); y = fl(a.elt(k))
    if y.nan is FALSE: return mk(AV((n,), lambda t: bind('argsort', k, n, y.v, t, sort='I'), 'i'))
    return mk(AV((n,), lambda t: bind('argsort', k, n, pair(not_(y.nan), y.v), t, sort='I'), 'i'))
@nat('np.sort')
def n_sort(I_, x, axis=None):
    a = asav(I_, x)
    if a.ndim != 1: raise Unsupported('sort of rank 2')
    p = I_.av(n_argsort(I_, x, 'stable'))
    return mk(AV(a.shape, lambda t: a.elt(p.elt(t)), a.dt))
@nat('np.unique')
def n_unique(I_, x, return_index=None, **k):
    a0 = asav(I_, x)
    if getattr(a0, 'nzm', None) and (return_index is None or return_index is FALSE):
        # rows (columns) of a mask that hold a true element, in increasing order
        m, d = a0.nzm
        if d == 1: c, (f,) = nz1(I_, m.shape[1], lambda s: gany(m.shape[0], lambda v: m.elt(v, s)))
        else: c, (f,) = nz1(I_, m.shape[0], lambda s: gany(m.shape[1], lambda v: m.elt(s, v)))
        return mk(AV((c,), f, 'i'))
    a = flatten_av(I_, a0); n = a.shape[0]
    if cint(n) == 0: return mk(copyav(a))
    s = I_.av(n_sort(I_, mk(a)))
    new = AV((n,), lambda t: or_(eq(t, 0), s_cmp('!=', s.elt(t), s.elt(sub(t, 1)))), 'b')
    r = compress(I_, s, new)
    if return_index is None or return_index is FALSE: return mk(r)
    p = I_.av(n_argsort(I_, mk(a), 'stable'))
    return (mk(r), mk(compress(I_, p, new)))
@nat('np.intersect1d')
def n_intersect(I_, x, y):
    """both are the true elements of masks (argwhere): the true elements of both, in order"""
    r = []
    for z in (x, y):
        a = flatten_av(I_, asav(I_, z)); t = fresh('t', 'I'); e = it(a.elt(t))
        if not (e.op == 'bind' and e.data[0] == 'sel' and e.args[2] is t and t.data not in e.args[0].fv | e.args[1].fv): raise Unsupported('intersect1d')
        v, n, b = open_(e)
        k = fresh('k', 'I')
        if a.shape[0] is not count(n, lambda k: subst(b, {v: k})) and not I_.holds(eq(a.shape[0], count(n, lambda k: subst(b, {v: k})))): raise Unsupported('intersect1d of part of a mask')
        r.append((v, n, b))
    (v1, n1, b1), (v2, n2, b2) = r
    keep = lambda k: and_(subst(b1, {v1: k}), lt(k, n2), subst(b2, {v2: k}))
    return mk(AV((count(n1, keep),), lambda t: sel(n1, keep, t), 'i'))
@nat('np.isin', 'np.in1d')
def n_isin(I_, x, y):
    b = flatten_av(I_, asav(I_, y))
    import loops
    def f(v):
        if isint(v) and b.dt == 'i':
            t = fresh('t', 'I'); return loops.solve_multi([(it(b.elt(t)), it(v))], [t], [b.shape[0]])[0]
        return gany(b.shape[0], lambda k: s_cmp('==', v, b.elt(k)))
    return ew(I_, f, 'b', x)
@nat('np.ix_')
def n_ix(I_, *xs):
    out = []
    for d, x in enumerate(xs):
        a = asav(I_, x)
        out.append(mk(AV([a.shape[0] if j == d else I(1) for j in range(len(xs))], lambda *ix, a=a, d=d: a.elt(ix[d]), a.dt)))
    return tuple(out)


# ---------------------------------------------------------------- linear algebra
@nat('np.dot', 'np.matmul', 'np.inner')
def n_dot(I_, a, b):
    if isnum(a) or isnum(b): return binop(I_, ast.Mult(), a, b)
    A, Bv = asav(I_, a), asav(I_, b)
    if A.ndim == 0 or Bv.ndim == 0: return binop(I_, ast.Mult(), a, b)
    n = A.shape[-1]; m = Bv.shape[0] if Bv.ndim == 1 else Bv.shape[-2]
    need_eq(I_, n, m, 'shapes not aligned')
    def d(f, g): return gsum(n, lambda k: fl(s_mul(f(k), g(k))))
    if A.ndim == 1 and Bv.ndim == 1: return d(lambda k: A.elt(k), lambda k: Bv.elt(k))
    if A.ndim == 2 and Bv.ndim == 1: return mk(AV((A.shape[0],), lambda i: d(lambda k: A.elt(i, k), lambda k: Bv.elt(k)), 'f'))
    if A.ndim == 1 and Bv.ndim == 2: return mk(AV((Bv.shape[1],), lambda j: d(lambda k: A.elt(k), lambda k: Bv.elt(k, j)), 'f'))
    if A.ndim == 2 and Bv.ndim == 2: return mk(AV((A.shape[0], Bv.shape[1]), lambda i, j: d(lambda k: A.elt(i, k), lambda k: Bv.elt(k, j)), 'f'))
    raise Unsupported('dot of rank 3')


def lam2(a):
    """term standing for the whole matrix"""
    i, j = fresh('i', 'I'), fresh('j', 'I')
    x = fl(a.elt(i, j))
    return bind('lam', i, a.shape[0], bind('lam', j, a.shape[1], x.v, sort='L'), sort='L'), or_(not_(bind('forall', i, a.shape[0], bind('forall', j, a.shape[1], not_(x.nan)))), not_(bind('forall', i, a.shape[0], bind('forall', j, a.shape[1], not_(x.bad)))))


@nat('np.linalg.inv', 'scipy.linalg.inv')
def n_inv(I_, x):
    a = asav(I_, x)
    if a.ndim != 2: raise PyExc('LinAlgError')
    need_eq(I_, *a.shape)
    L, weird = lam2(a)
    sing = uf('singular', [L], 'B')
    I_.require(not_(sing), 'LinAlgError', 'singular matrix')
    I_.invs = getattr(I_, 'invs', {}); I_.invs[L] = a
    return mk(AV(a.shape, lambda i, j: F(uf('matinv', [L, i, j], 'R'), FALSE, weird), 'f'))
@nat('np.linalg.det')
def n_det(I_, x):
    a = asav(I_, x); need_eq(I_, *a.shape)
    L, weird = lam2(a)
    return F(uf('det', [L], 'R'), FALSE, weird)
@nat('np.linalg.solve', 'scipy.linalg.solve')
def n_solve(I_, x, y):
    a, b = asav(I_, x), asav(I_, y)
    need_eq(I_, *a.shape); need_eq(I_, a.shape[0], b.shape[0])
    L, weird = lam2(a)
    sing = uf('singular', [L], 'B')
    I_.require(not_(sing), 'LinAlgError', 'singular matrix')
    I_.invs = getattr(I_, 'invs', {}); I_.invs[L] = a
    n = a.shape[0]
    w = lambda i, k: F(uf('matinv', [L, i, k], 'R'), FALSE, weird)
    if b.ndim == 1: return mk(AV((n,), lambda i: gsum(n, lambda k: fl(s_mul(w(i, k), b.elt(k)))), 'f'))
    return mk(AV((n, b.shape[1]), lambda i, j: gsum(n, lambda k: fl(s_mul(w(i, k), b.elt(k, j)))), 'f'))


# ---------------------------------------------------------------- vectorize, interp1d
@nat('np.vectorize')
def n_vectorize(I_, f, **k):
    def call(I2, args, kw):
        if kw: raise Unsupported('vectorize with keywords')
        avs = [asav(I2, x) for x in args]
        if all(a.ndim == 0 for a in avs): return I2.call(f, [a.elt() for a in avs])
        shape, fs = broadcast(I2, *avs)
        if any(isc(s) and s.data == 0 for s in shape): raise PyExc('ValueError', 'cannot call vectorize on size 0 inputs')
        I2.require(gt(mul(I(1), *shape), 0), 'ValueError', 'cannot call vectorize on size 0 inputs')
        ix = [fresh('v', 'I') for _ in shape]
        return gen_elem(I2, shape, ix, lambda: I2.call(f, [g(tuple(ix)) for g in fs]))
    return Obj('vectorized', __call__=call)


def gen_elem(I_, shape, ix, f, dt=None):
    """array whose element at ix is f(), evaluated once for a generic index"""
    s = I_.st.copy()
    for i, n in zip(ix, shape): s.assume(le(0, i)); s.assume(lt(i, n))
    mark = I_.cellmark()
    I_.inloop += 1
    try:
        outs = I_.fork(s, f)
        base = len(s.pc)
        bad = [o for o in outs if o[0] == 'raise']
        ok = [o for o in outs if o[0] == 'ok']
        j = I_.join([o[2] for o in ok], mark, [scalar_of_any(I_, o[1], o[2]) for o in ok])
    finally: I_.inloop -= 1
    if len(j) > 1: raise Unsupported('elementwise function with outcomes that cannot be merged: ' + getattr(I_, 'lastnomerge', ''))
    # raises: exists an element raising
    for k, e, st in bad:
        c = and_(*st.pc[base:])
        for i, n in zip(reversed(ix), reversed(shape)): c = not_(bind('forall', i, n, not_(c)))
        I_.require(not_(c), e.kind, e.msg)
    if not j: raise Dead()
    for st_, v in j:
        for fct in st_.facts:
            if fct not in I_.st.facts:
                if fct.fv & {i.data for i in ix}:
                    for i, n in zip(reversed(ix), reversed(shape)): fct = bind('forall', i, n, fct)
                I_.st.facts.append(fct)
    v = j[0][1]
    # drop heap effects: none allowed
    for c in j[0][0].heap:
        if j[0][0].heap[c] is not I_.st.heap.get(c) and c in I_.st.heap: raise Unsupported('elementwise function with side effects')
    if isinstance(v, Arr):
        a1 = I_.avs(j[0][0], v)
        if a1.dt == 'f' and all(isc(m) and m.data == 1 for m in a1.shape): v = a1.elt(*[I(0)] * a1.ndim)      # arrays of one element are numbers in an array of floats
    if not isnum(v): raise Unsupported(f'elementwise function returns {v!r}')
    return mk(AV(shape, lambda *jx: vsubst(v, dict(zip(ix, jx))), dt or dt_of(v)))


def scalar_of_any(I_, v, st):
    if isinstance(v, Arr):
        a = I_.avs(st, v)
        if a.ndim == 0: return a.elt()
    return v


@nat('scipy.interpolate.interp1d')
def n_interp1d(I_, x, y, **k):
    X, Y = asav(I_, x), asav(I_, y)
    n = cint(I_.simp(X.shape[0]))
    if n is None or n > 16: raise Unsupported('interp1d over a symbolic number of nodes')
    xs = [fl(X.elt(I(j))) for j in range(n)]; ys = [fl(Y.elt(I(j))) for j in range(n)]
    order = None
    if all(isc(a.v) for a in xs): order = sorted(range(n), key=lambda j: xs[j].v.data)
    elif n == 2:
        order = [0, 1] if I_.branch(le(xs[0].v, xs[1].v)) else [1, 0]
    else: raise Unsupported('interp1d over symbolic nodes')
    xs = [xs[j] for j in order]; ys = [ys[j] for j in order]

    def call(I2, args, kw):
        def f(v):
            v = fl(v)
            I2.require(or_(v.nan, and_(le(xs[0].v, v.v), le(v.v, xs[-1].v))), 'ValueError', 'interpolation range')
            r = None
            # scipy: segment j with x[j-1] < v <= x[j] (searchsorted left, clipped to 1..n-1)
            for j in range(n - 1, 0, -1):
                a, b, p, q = xs[j - 1].v, xs[j].v, ys[j - 1], ys[j]
                s = F(add(p.v, mul(div(sub(v.v, a), sub(b, a)), sub(q.v, p.v))), or_(p.nan, q.nan), or_(p.bad, q.bad, eq(a, b)))
                r = s if r is None else s_where(le(v.v, b), s, r)
            return F(r.v, or_(v.nan, r.nan), r.bad)
        a = asav(I2, args[0])
        if a.ndim == 0: return mk(AV((), lambda w=f(a.elt()): w, 'f'))
        ix = [fresh('v', 'I') for _ in a.shape]
        return gen_elem(I2, a.shape, ix, lambda: f(a.elt(*ix)))
    return Obj('interp1d', __call__=call)
N_['scipy.interpolate.interpolate.interp1d'] = n_interp1d
@nat('os.path.sep.join')
def os_join(I_, xs): return method(I_, '/', 'join', [xs], {})
@nat('os.path.join')
def os_pjoin(I_, *xs): return method(I_, '/', 'join', [tuple(xs)], {})
@nat('functools.lru_cache')
def f_lru(I_, *a, **k): return lambda I2, b, kw: b[0]
@nat('functools.partial')
def f_partial(I_, f, *a, **k): return lambda I2, b, kw: I2.call(f, list(a) + list(b), {**k, **kw})
@nat('builtins.map')
def b_map(I_, f, x):
    n, e = I_.iter(x); return RangeV(n, lambda i: I_.call(f, [e(i)]))
