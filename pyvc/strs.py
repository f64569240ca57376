"""Strings of digits: str(number) for integers and for floats in [0, 1e16) (documented shortest repr: integer digits, '.', rest)."""
from vals import *
from ir import *

MAXL = 16


def ndig(N): return uf('ndigits', [N], 'I')


class Digits:
    """decimal digits of the non-negative integer N"""
    def __init__(self, N): self.N = N
    def attr(self, I_, name):
        if name == '__len__': return lambda I2, a, k: ndig(self.N)
        if name in ('split', 'partition'): return lambda I2, a, k: self._split(I2, a, k)
        if name == 'strip': return lambda I2, a, k: self
        if name == 'isdigit': return lambda I2, a, k: TRUE
        raise Unsupported(f'string method {name}')
    def _split(self, I_, a, k):
        from interp import mklist
        if not a or a[0] != '.': raise Unsupported('split')
        return mklist([self])
    def length(self, I_): return ndig(self.N)
    def getitem(self, I_, k):
        if isinstance(k, SliceV):
            a = 0 if k.a is None else cint(k.a); b = MAXL if k.b is None else cint(k.b)
            if k.s is not None and cint(k.s) != 1 or a is None or b is None or a < 0 or b < 0: raise Unsupported('slice of digits')
            return Slice(self.N, a, b)
        raise Unsupported('character of a number')
    def toint(self, I_): return self.N
    def vsub(self, m): return Digits(subst(self.N, m))
    def tostr(self, I_): return self


class Slice:
    def __init__(self, N, a, b): self.N, self.a, self.b = N, a, b
    def vsub(self, m): return Slice(subst(self.N, m), self.a, self.b)
    def length(self, I_):
        L = ndig(self.N); e = imin(L, I(self.b)); return imax(sub(e, self.a), I(0))
    def toint(self, I_):
        L, N, a, b = ndig(self.N), self.N, self.a, self.b
        I_.require(lt(a, L), 'ValueError', "int('')")
        if b <= a: return I_.require(FALSE, 'ValueError', "int('')")
        r = None
        for l in range(a + 1, MAXL + 1):
            e = min(b, l); v = mod(fdiv(N, 10 ** (l - e)), 10 ** (e - a))
            r = v if r is None else ite(eq(L, l), v, r)
        return r
    def attr(self, I_, name):
        if name == '__len__': return lambda I2, a, k: self.length(I2)
        raise Unsupported(f'string method {name}')


class FloatStr(Digits):
    """digits of the integer part, a point, more"""
    def attr(self, I_, name):
        if name in ('split', 'partition'): return lambda I2, a, k: self._split(I2, a, k)
        raise Unsupported(f'string method {name} of a float string')
    def _split(self, I_, a, k):
        from interp import mklist
        if not a or a[0] != '.': raise Unsupported('split')
        return mklist([Digits(self.N), Frac()])
    def length(self, I_): raise Unsupported('length of a float string')
    def getitem(self, I_, k):
        raise Unsupported('slice of a float string')
    def toint(self, I_):
        from interp import PyExc
        raise PyExc('ValueError', 'int of a float string')
    def vsub(self, m): return FloatStr(subst(self.N, m))


class Frac: pass


def of_number(I_, x):
    if isinstance(x, T) and x.sort == 'I':
        if isc(x): return str(int(x.data))
        if not I_.holds(and_(le(0, x), lt(x, 10 ** MAXL))): raise Unsupported('text of a number outside [0, 1e16)')
        return Digits(x)
    if isinstance(x, F):
        if not I_.holds(and_(not_(x.nan), not_(x.bad), le(R(0), x.v), lt(x.v, R(10 ** MAXL)))): raise Unsupported('text of a number outside [0, 1e16)')
        I_.notes.add('str of a float in [0, 1e16) is its integer digits, a point and a fraction (CPython repr)')
        return FloatStr(floor(x.v))
    raise Unsupported(f'text of {x!r}')
