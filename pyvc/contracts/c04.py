"""C04: get_topo_grid. The file is 2160 rows of 4320 16-bit numbers, 5 minutes apart, from 90 N southwards and 0 E eastwards: an
uninterpreted function of the position of the bytes; open/seek/read/struct.unpack by their library models."""
import ast
from con import *
from loops import Inv
W = 4320


def library(c, files):
    """open, seek, read, close and struct.unpack over one file"""
    def open_file(I_, a, kw):
        if a[0] != 'K/tbase.int' or (a[1] if len(a) > 1 else kw.get('mode', 'r')) != 'rb': raise Unsupported(f'file {a!r}')
        d = mkdict({'pos': I(0), 'open': TRUE}); files.append(d.cell)
        def put(I_, k, v): I_.st.heap[d.cell] = {**I_.dct(d), k: v}
        def seek(I_, p, whence=I(0)):
            if not (isc(I(whence)) and I(whence).data == 0): raise Unsupported('seek')
            if not isint(p): raise PyExc('TypeError', 'seek')
            I_.require(le(0, it(p)), 'ValueError', 'seek before the beginning'); put(I_, 'pos', it(p)); return p
        def read(I_, n=None):
            k = cint(n) if n is not None else None
            if k is None: raise Unsupported('read of unknown length')
            p = it(I_.dct(d)['pos']); I_.require(le(add(p, k), 2 * W * 2160), 'EOF', 'read past the end'); put(I_, 'pos', add(p, k)); return Obj('bytes', pos=p, n=k)
        def close(I_): put(I_, 'open', FALSE)
        return Obj('file', seek=seek, read=read, close=close)
    def unpack(I_, a, kw):
        f, b = a
        if not isinstance(b, Obj) or f not in ('h', '<h'): raise Unsupported(f'unpack {f!r}')
        if b.m['n'] != 2: raise PyExc('error', 'unpack')
        return (uf('tbase', [b.m['pos']], 'I'),)
    return {'builtins.open': open_file, 'struct.unpack': unpack, 'os.path.sep.join': lambda I_, a, kw: '/'.join(I_.items(a[0])), 'os.path.join': lambda I_, a, kw: '/'.join(a)}


def same(x, y):
    x, y = fl(x), fl(y); return and_(eq(x.v, y.v), eq(x.nan, y.nan), eq(x.bad, y.bad))


class Row(Inv):
    """after k values of a row that may be longer than that of the file: the place in the file, and the values read so far"""
    fn = FE + '.get_topo_grid'
    def applies(self, I_, s, n, st):
        self.to = [x.targets[0] for x in s.body if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and isinstance(x.targets[0].slice, ast.Tuple)]
        if len(self.to) != 1 or not isinstance(self.to[0].value, ast.Name) or not isinstance(self.to[0].slice.elts[0], ast.Name): return False
        return len(self.lib['files']) > 0 and any(isinstance(x, ast.If) for x in s.body)
    def it_(self, st0): return st0.env[self.to[0].value.id].cell, it(st0.env[self.to[0].slice.elts[0].id])
    def covers(self, I_, st0, key): return key in (('cell', self.it_(st0)[0]), ('dict', self.lib['files'][-1], 'pos'))
    def now(self, I_, st0, k):
        f = self.lib['files'][-1]; cell, row = self.it_(st0); p = it(st0.content(f)['pos']); a = st0.content(cell); k = I(k)
        e = lambda i, j: s_where(and_(eq(i, row), lt(j, k)), F(toreal(uf('tbase', [add(p, mul(2, ite(lt(j, W), j, sub(j, W))))], 'I'))), a.elt(i, j))
        return f, cell, add(p, mul(2, ite(le(k, W), k, sub(k, W)))), AV(a.shape, e, 'f')
    def state(self, I_, st0, st, k):
        f, cell, p, a = self.now(I_, st0, k); st.heap[f] = {**st.content(f), 'pos': p}; st.heap[cell] = a
        return []
    def claims(self, I_, st0, st, k):
        f, cell, p, a = self.now(I_, st0, k); b = st.content(cell); i, j = fresh('k', 'I'), fresh('k', 'I')
        return [('place in the file', eq(it(st.content(f)['pos']), p)), ('values read', and_(eq(b.shape[0], a.shape[0]), eq(b.shape[1], a.shape[1]), bind('forall', i, a.shape[0], bind('forall', j, a.shape[1], same(b.elt(i, j), a.elt(i, j))))))]


def obligations(c):
    c.ob('grid', lambda: grid(c))


def grid(c):
    x0, x1, y0, y1 = [c.real(x) for x in 'min_long max_long min_lat max_lat'.split()]
    X0, X1, Y0, Y1 = [fl(x).v for x in (x0, x1, y0, y1)]
    pc = [le(R(-360), X0), le(X0, X1), le(X1, R(720)), le(sub(X1, X0), R(360)), le(Y0, Y1), le(Y0, R(90)), le(R(-89), Y1)]
    files = []; inv = Row(); inv.lib = dict(files=files)
    outs = c.run(FE, 'get_topo_grid', [x0, x1, y0, y1, mkdict({'CONFIG_DIRECTORY': 'K'})], pc=pc, over=library(c, files), invs=[inv])
    r, q = c.int('r'), c.int('q')
    for v, s in c.returns(outs, 'no error'):
        I_ = c.last; h = hy(s); z, lo, la = [I_.avs(s, x) for x in v]
        c.prove('grid: three matrices of one size', h, and_(*[eq(x.shape[k], lo.shape[k]) for x in (z, la) for k in (0, 1)]))
        n, m = lo.shape; h0 = h + [rng(r, n), rng(q, m)]
        L, A = fl(lo.elt(r, q)).v, fl(la.elt(r, q)).v
        row, col = sub(I(1080), floor(mul(R(12), A))), mod(floor(mul(R(12), L)), I(W))
        c.prove('grid: nodes on the lines of the file', h0, and_(eq(toreal(floor(mul(R(12), L))), mul(R(12), L)), eq(toreal(floor(mul(R(12), A))), mul(R(12), A)), rng(row, 2160)))
        c.prove('grid: depth of the position of the node', h0, feq(z.elt(r, q), F(toreal(uf('tbase', [mul(2, add(mul(row, W), col))], 'I')))), hints=[r, q])
        c.prove('grid: nodes 1/12 degree apart', h0 + [lt(add(r, 1), n), lt(add(q, 1), m)], and_(eq(fl(lo.elt(r, add(q, 1))).v, add(L, R(Fr(1, 12)))), eq(fl(la.elt(add(r, 1), q)).v, sub(A, R(Fr(1, 12))))))
        c.prove('grid: one longitude per column, one latitude per row', h0, and_(feq(lo.elt(r, q), lo.elt(I(0), q)), feq(la.elt(r, q), la.elt(r, I(0)))))
        c.prove('grid: covers the longitudes', h, and_(lt(0, m), lt(0, n), le(fl(lo.elt(I(0), I(0))).v, X0), le(X1, fl(lo.elt(I(0), sub(m, 1))).v)))
        top, bot = ite(lt(R(90), Y1), R(90), Y1), R(Fr(-1079, 12))
        c.prove('grid: covers the latitudes', h, and_(le(top, fl(la.elt(I(0), I(0))).v), or_(le(fl(la.elt(sub(n, 1), I(0))).v, Y0), eq(fl(la.elt(sub(n, 1), I(0))).v, bot))))
        c.prove('grid: no more than a step outside', h, and_(lt(sub(X0, R(Fr(1, 12))), fl(lo.elt(I(0), I(0))).v), lt(fl(lo.elt(I(0), sub(m, 1))).v, add(X1, R(Fr(1, 12))))))
    c.sat('a range', pc)
