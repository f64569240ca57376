"""Symbolic execution of the functions under contract, from /repo's source as it is now. Every path is followed: both
branches of a conditional are executed and merged, calls to functions of the package are executed from their own source,
loops over symbolic ranges are replaced by closed forms that are derived from one generic iteration and checked to
reproduce themselves (summarise). Whatever falls outside the supported subset raises Unsupported."""
import ast, os, sys, builtins
from vals import *
from ir import *
import prove as PR

CELL0 = {}


def reg(h):
    CELL0[h.cell] = h.av0 if isinstance(h, Arr) else h.sv0 if isinstance(h, Lst) else h.d0
    return h


def mk(av): return reg(Arr(av))
def mklist(items): return reg(Lst(SeqV(items=list(items))))
def mkseq(sv): return reg(Lst(sv))
def mkdict(d): return reg(Dct(d))


class PyExc(Exception):
    def __init__(self, kind, msg=''): self.kind, self.msg = kind, msg
    def __str__(self): return f'{self.kind}: {self.msg}'


class Choice(Exception):
    def __init__(self, n): self.n = n


class Dead(Exception):
    pass


class NoMerge(Exception):
    pass


EXC_PARENT = dict(IndexError='LookupError', KeyError='LookupError', LookupError='Exception', ValueError='Exception', TypeError='Exception', ZeroDivisionError='ArithmeticError', ArithmeticError='Exception',
                  RuntimeError='Exception', AttributeError='Exception', NameError='Exception', UnboundLocalError='NameError', LinAlgError='ValueError', FileNotFoundError='OSError', OSError='Exception', NotImplementedError='RuntimeError', OverflowError='ArithmeticError', Exception='BaseException')


def is_sub(k, p):
    while k:
        if k == p: return True
        k = EXC_PARENT.get(k, 'Exception' if k not in ('Exception', 'BaseException') else None)
    return False


class Alt:
    """one of two values that are only passed on"""
    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def merge(self, c, b): return self if isinstance(b, Alt) and (b.c, b.a, b.b) == (self.c, self.a, self.b) else None
    def cases(self, pc=()):
        for c, v in ((self.c, self.a), (not_(self.c), self.b)):
            if isinstance(v, Alt): yield from v.cases(list(pc) + [c])
            else: yield list(pc) + [c], v


class State:
    def __init__(self, env=None, heap=None, pc=None, facts=None, frozen=frozenset()):
        self.env = env or {}; self.heap = heap or {}; self.pc = pc or []; self.facts = facts or []; self.frozen = frozen

    def copy(self): return State(dict(self.env), dict(self.heap), list(self.pc), list(self.facts), self.frozen)

    def content(self, cell): return self.heap.get(cell, CELL0.get(cell))

    def assume(self, c):
        if c is not TRUE and c not in self.pc: self.pc.append(c)


class Interp:
    def __init__(self, repo=None, maxunroll=80):
        self.repo = repo or os.environ.get('PYOWC_REPO', '/repo')
        self.mods = {}; self.over = {}; self.depth = 0; self.inloop = 0; self.plain = False
        self.st = None; self.trace = []; self.pos = 0
        self.ctxs = {}; self.maxunroll = maxunroll; self.inlined = set(); self.printed = 0
        self.lenient = False; self.globals = {}; self.notes = set(); self.mergearr = True
        self.budget = None; self.invs = []; self.curfn = ''; self.alts = False

    # ------------------------------------------------------------ modules
    def module(self, name):
        m = self.mods.get(name)
        if m is not None: return m
        p = os.path.join(self.repo, *name.split('.'))
        p = p + '.py' if os.path.exists(p + '.py') else os.path.join(p, '__init__.py')
        tree = ast.parse(open(p).read())
        m = self.mods[name] = {'__name__': name}
        pkg = name.split('.')[:-1] if not p.endswith('__init__.py') else name.split('.')
        for n in tree.body:
            if isinstance(n, ast.FunctionDef): m[n.name] = Fun(n, name)
            elif isinstance(n, ast.Import):
                for a in n.names: m[(a.asname or a.name).split('.')[0]] = Nat(a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                if n.level:
                    base = pkg[:len(pkg) - n.level + 1] + (n.module.split('.') if n.module else [])
                    for a in n.names: m[a.asname or a.name] = ('lazy', '.'.join(base), a.name)
                elif n.module and n.module.split('.')[0] == 'pyowc':
                    for a in n.names: m[a.asname or a.name] = ('lazy', n.module, a.name)
                else:
                    for a in n.names: m[a.asname or a.name] = Nat(f'{n.module}.{a.name}')
            elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                m[n.targets[0].id] = ('const', n.value)
            elif isinstance(n, ast.ClassDef): m[n.name] = ('class', n.name)
        return m

    def func(self, mod, name):
        f = self.lookup_mod(mod, name)
        if not isinstance(f, Fun): raise Unsupported(f'{mod}.{name} is not a function')
        return f

    def lookup_mod(self, mod, name):
        m = self.module(mod)
        if name not in m: return None
        v = m[name]
        if isinstance(v, tuple) and v[0] == 'lazy':
            p = os.path.join(self.repo, *v[1].split('.'))
            try: v = self.lookup_mod(v[1], v[2])
            except FileNotFoundError: v = None
            if v is None: v = Nat(f'{m[name][1]}.{m[name][2]}')
            m[name] = v
        elif isinstance(v, tuple) and v[0] == 'const':
            save = self.st; self.st = self.st or State()
            mm = dict(m); e2 = self.st.env
            v = self.ev_in(v[1], mod)
            self.st = save
            m[name] = v
        return v

    def ev_in(self, node, mod):
        save = self.curmod if hasattr(self, 'curmod') else None
        self.curmod = mod
        try: return self.ev(node)
        finally: self.curmod = save

    # ------------------------------------------------------------ decisions
    def ctx(self, st=None):
        st = st or self.st
        key = (tuple(st.pc), tuple(st.facts))
        c = self.ctxs.get(key)
        if c is None:
            c = self.ctxs[key] = PR.Ctx(list(st.facts) + list(st.pc))
        return c

    def decide(self, c):
        c = B(c)
        if isc(c): return c.data
        return self.ctx().decide(c)

    def holds(self, c): return self.decide(c) is True

    def simp(self, t): return self.ctx().simp(t)

    def choose(self, conds):
        if self.pos < len(self.trace):
            i = self.trace[self.pos]; self.pos += 1
            if isinstance(i, int): self.st.assume(conds[i]); return i
            return i[0]
        feas = []
        for i, c in enumerate(conds):
            c = B(c)
            if isc(c) and c.data: feas.append(i); break
            if c is FALSE or self.decide(c) is False: continue
            feas.append(i)
        if not feas: raise Dead()
        if len(feas) == 1:
            self.trace.append((feas[0],)); self.pos += 1
            return feas[0]
        raise Choice(feas)

    def require(self, c, exc, msg=''):
        """continues where c holds, raises exc elsewhere"""
        c = B(c)
        if c is TRUE: return
        d = self.decide(c)
        if d is True: return
        if self.choose([c, not_(c)]) == 1: raise PyExc(exc, msg)

    def branch(self, c):
        """python bool, following both ways if undecided"""
        c = B(c)
        if isc(c): return c.data
        d = self.decide(c)
        if d is not None: return d
        return self.choose([c, not_(c)]) == 0

    def fork(self, st, f):
        saved = (self.st, self.trace, self.pos)
        outs, work, n = [], [[]], 0
        try:
            while work:
                tr = list(work.pop()); self.st = st.copy(); self.trace = tr; self.pos = 0
                n += 1
                if n > 400: raise Unsupported('too many paths in one statement')
                if self.budget is not None:
                    self.budget -= 1
                    if self.budget < 0: raise Unsupported('execution budget exhausted')
                try: outs.append(('ok', f(), self.st))
                except Choice as c:
                    for i in reversed(c.n): work.append(self.trace + [i])
                except PyExc as e: outs.append(('raise', e, self.st))
                except Dead: pass
        finally:
            self.st, self.trace, self.pos = saved
        return outs

    # ------------------------------------------------------------ merging
    def merge2(self, s1, v1, s2, v2, mark):
        k = 0
        while k < len(s1.pc) and k < len(s2.pc) and s1.pc[k] is s2.pc[k]: k += 1
        p1, p2 = s1.pc[k:], s2.pc[k:]
        c = p1[0] if p1 and p2 and p1[0] is not_(p2[0]) else and_(*p1)
        if not p1: raise NoMerge('no distinguishing condition')
        m = State({}, {}, s1.pc[:k], list(s1.facts), s1.frozen | s2.frozen)
        for f in s2.facts:
            if f not in m.facts: m.facts.append(f)
        m.assume(or_(and_(*p1), and_(*p2)))
        fz = set()
        mm = lambda a, b: self.mv(c, a, b, s1, s2, m, mark, fz)
        for nm in {**s1.env, **s2.env}:
            a, b = s1.env.get(nm, UNDEF), s2.env.get(nm, UNDEF)
            if a is b: m.env[nm] = a; continue
            if a is UNDEF or b is UNDEF: m.env[nm] = UNDEF; continue
            try: m.env[nm] = mm(a, b)
            except Unsupported as e: raise NoMerge(f'{nm}: {e}')
        for cell in {**s1.heap, **s2.heap}:
            a, b = s1.content(cell), s2.content(cell)
            m.heap[cell] = a if a is b else self.mcontent(c, a, b, mm)
        v = None
        if v1 is not v2: v = mm(v1, v2)
        else: v = v1
        m.frozen = m.frozen | fz
        return m, v

    def mcontent(self, c, a, b, mm):
        if isinstance(a, AV): return self.mav(c, a, b)
        if isinstance(a, SeqV): return self.mseq(c, a, b, mm)
        if isinstance(a, dict):
            if set(a) != set(b):
                return {k: (mm(a[k], b[k]) if k in a and k in b else UNDEF) if not (k in a and k in b and a[k] is b[k]) else a[k] for k in {**a, **b}}
            return {k: a[k] if a[k] is b[k] else mm(a[k], b[k]) for k in a}
        raise NoMerge('contents')

    def mav(self, c, a, b):
        if a.ndim != b.ndim: raise NoMerge('dimensions')
        if a.cat and a.cat[0] is b: return self.guard_cat(c, a, b)
        if b.cat and b.cat[0] is a: return self.guard_cat(not_(c), b, a)
        if a.cat and b.cat and a.cat[0] is b.cat[0]:
            av = AV([ite(c, x, y) for x, y in zip(a.shape, b.shape)], lambda *ix: s_where(c, a.elt(*ix), b.elt(*ix)), promote(a.dt, b.dt))
            av.cat = (a.cat[0], [(and_(c, g), v) for g, v in a.cat[1]] + [(and_(not_(c), g), v) for g, v in b.cat[1]])
            return av
        return AV([ite(c, x, y) for x, y in zip(a.shape, b.shape)], lambda *ix: s_where(c, a.elt(*ix), b.elt(*ix)) if a.dt != 'O' and b.dt != 'O' else self.mobj(c, a.elt(*ix), b.elt(*ix)), promote(a.dt, b.dt))

    def mobj(self, c, x, y):
        if x is y: return x
        return s_where(c, x, y)

    def guard_cat(self, c, a, base):
        av = AV([ite(c, x, y) for x, y in zip(a.shape, base.shape)], lambda *ix: s_where(c, a.elt(*ix), base.elt(*ix)), a.dt)
        av.cat = (base, [(and_(c, g), v) for g, v in a.cat[1]])
        return av

    def mseq(self, c, a, b, mm):
        if a.items is not None and b.items is not None and len(a.items) == len(b.items):
            return SeqV(items=[x if x is y else mm(x, y) for x, y in zip(a.items, b.items)])
        if a.cat and a.cat[0] is b: return SeqV(n=ite(c, a.n, b.n), elt=self.ext_elt(a, b), cat=(b, [(and_(c, g), v) for g, v in a.cat[1]]))
        if b.cat and b.cat[0] is a: return SeqV(n=ite(c, a.n, b.n), elt=self.ext_elt(b, a), cat=(a, [(and_(not_(c), g), v) for g, v in b.cat[1]]))
        if a.cat and b.cat and a.cat[0] is b.cat[0]:
            return SeqV(n=ite(c, a.n, b.n), elt=self.no_elt, cat=(a.cat[0], [(and_(c, g), v) for g, v in a.cat[1]] + [(and_(not_(c), g), v) for g, v in b.cat[1]]))
        if a.items is None and b.items is None:
            return SeqV(n=ite(c, a.n, b.n), elt=lambda i: mm(a.elt(i), b.elt(i)))
        if self.inloop and a.items is not None and b.items is not None and not a.cat and not b.cat:
            for x, y, g in ((a, b, c), (b, a, not_(c))):
                if len(x.items) > len(y.items) and all(p is q for p, q in zip(x.items, y.items)):
                    return SeqV(n=ite(g, x.n, y.n), elt=self.no_elt, cat=(y, [(g, v) for v in x.items[len(y.items):]]))
        raise NoMerge('lists of different length')

    def ext_elt(self, a, b):
        """elements of b, or of its extension a"""
        return a._elt if a.items is None and b.items is None and a._elt is not None else self.no_elt

    def no_elt(self, i): raise Unsupported('element of a list under construction')

    def mv(self, c, a, b, s1, s2, m, mark, fz):
        if a is b: return a
        if isnum(a) and isnum(b): return s_where(c, a, b)
        if isinstance(a, str) and a == b: return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.mv(c, x, y, s1, s2, m, mark, fz) for x, y in zip(a, b))
        if isinstance(a, Arr) and isinstance(b, Arr):
            if a.cell == b.cell and a.view is b.view: return a
            old = [h.cell for h in (a, b) if h.cell <= mark or h.view]
            if old and not self.mergearr and not self.inloop: raise NoMerge('arrays of different identity')
            fz.update((a.cell, b.cell))
            r = mk(self.mav(c, self.avs(s1, a), self.avs(s2, b)))
            if old: fz.add(r.cell)
            else: fz.difference_update((a.cell, b.cell))
            return r
        if isinstance(a, Lst) and isinstance(b, Lst):
            if a.cell == b.cell: return a
            fz.update((a.cell, b.cell))
            return mkseq(self.mseq(c, s1.content(a.cell), s2.content(b.cell), lambda x, y: self.mv(c, x, y, s1, s2, m, mark, fz)))
        if isinstance(a, Dct) and isinstance(b, Dct):
            if a.cell == b.cell: return a
            fz.update((a.cell, b.cell))
            return mkdict(self.mcontent(c, s1.content(a.cell), s2.content(b.cell), lambda x, y: self.mv(c, x, y, s1, s2, m, mark, fz)))
        if isinstance(a, (Arr, Lst)) and isinstance(b, (Arr, Lst)):
            # [] or an array
            if self.alts: fz.update((a.cell, b.cell)); return Alt(c, a, b)
            raise NoMerge('list and array')
        if self.alts and (isinstance(a, Arr) and isnum(b) or isinstance(b, Arr) and isnum(a)): fz.update(x.cell for x in (a, b) if isinstance(x, Arr)); return Alt(c, a, b)
        if hasattr(a, 'merge'):
            r = a.merge(c, b)
            if r is not None: return r
        if hasattr(b, 'merge'):
            r = b.merge(not_(c), a)
            if r is not None: return r
        if isinstance(a, Nat) and isinstance(b, Nat) and a.name == b.name: return a
        if isinstance(a, Fun) and isinstance(b, Fun) and a.node is b.node: return a
        raise NoMerge(f'{type(a).__name__} and {type(b).__name__}')

    def join(self, sts, mark, vals=None):
        """merges states (with values) as far as possible"""
        out = []
        for k, s in enumerate(sts):
            v = vals[k] if vals else None
            done = False
            for j, (s0, v0) in enumerate(out):
                try: out[j] = self.merge2(s0, v0, s, v, mark); done = True; break
                except NoMerge as e: self.lastnomerge = str(e)
                except Unsupported as e: self.lastnomerge = str(e)
            if not done: out.append((s, v))
        return out

    # ------------------------------------------------------------ contents
    def avs(self, st, h):
        base = st.content(h.cell)
        if h.view is None: return base
        shape, fwd, inv, *_ = h.view
        key = ('view', id(h))
        return AV(shape, lambda *ix: base.elt(*fwd(*ix)), base.dt)

    def av(self, h): return self.avs(self.st, h)

    def set_av(self, h, av):
        """replaces the contents seen through h (same shape)"""
        if h.cell in self.st.frozen: raise Unsupported('write to an array that may be shared by two branches')
        if h.view is None: self.st.heap[h.cell] = av; return
        base = self.st.content(h.cell)
        shape, fwd, inv, *_ = h.view

        def elt(*b):
            c, ix = inv(*b)
            if c is FALSE: return base.elt(*b)
            return self.swhere(c, cast(av.elt(*ix), base.dt), lambda: base.elt(*b))
        self.st.heap[h.cell] = AV(base.shape, elt, base.dt)

    def swhere(self, c, a, b):
        if isc(c): return a if c.data else b()
        b = b()
        return s_where(c, a, b) if isnum(a) and isnum(b) else self.mobj(c, a, b)

    def items(self, h):
        """python list of the items of a list of known length"""
        s = self.st.content(h.cell)
        if s.items is None:
            n = cint(self.simp(s.n))
            if n is None: raise Unsupported('list of symbolic length')
            return [s.elt(I(k)) for k in range(n)]
        return s.items

    def dct(self, h): return self.st.content(h.cell)

    def dset(self, h, k, v):
        if h.cell in self.st.frozen: raise Unsupported('write to a shared dictionary')
        d = dict(self.dct(h)); d[k] = v; self.st.heap[h.cell] = d

    # ------------------------------------------------------------ statements
    def block(self, stmts, st):
        outs, cur = [], [st]
        for s in stmts:
            nxt = []
            for c in cur:
                for k, v, s2 in self.stmt(s, c):
                    if k == 'normal': nxt.append(s2)
                    else: outs.append((k, v, s2))
            if len(nxt) > 48: raise Unsupported('too many paths')
            cur = nxt
            if not cur: break
        return outs + [('normal', None, s) for s in cur]

    def stmt(self, s, st):
        t = type(s)
        if t is ast.If: return self.s_if(s, st)
        if t is ast.For: return self.s_for(s, st)
        if t is ast.While: return self.s_while(s, st)
        if t is ast.Try: return self.s_try(s, st)
        if t is ast.With: raise Unsupported('with')
        if t is ast.Pass: return [('normal', None, st)]
        if t is ast.Break: return [('break', None, st)]
        if t is ast.Continue: return [('continue', None, st)]
        if t is ast.Expr and isinstance(s.value, ast.Constant): return [('normal', None, st)]
        if t is ast.FunctionDef:
            st = st.copy(); st.env[s.name] = Fun(s, self.curmod, env=dict(st.env)); return [('normal', None, st)]
        if t is ast.Global or t is ast.Nonlocal: raise Unsupported('global')
        if t is ast.Return:
            outs = self.fork(st, lambda: self.ev(s.value) if s.value else None)
            return [('return', v, s2) if k == 'ok' else (k, v, s2) for k, v, s2 in outs]
        if t is ast.Raise:
            def r():
                if s.exc is None: raise PyExc('Exception')
                e = s.exc
                nm = e.func if isinstance(e, ast.Call) else e
                name = nm.id if isinstance(nm, ast.Name) else nm.attr
                raise PyExc(name)
            return self.fork(st, r)
        if t is ast.Assert:
            return self.simple(st, lambda: self.require(self.truth(self.ev(s.test)), 'AssertionError'))
        if t is ast.Assign:
            def f():
                v = self.ev(s.value)
                for tg in s.targets: self.assign(tg, v)
            return self.simple(st, f)
        if t is ast.AnnAssign:
            return self.simple(st, lambda: self.assign(s.target, self.ev(s.value)) if s.value is not None else None)
        if t is ast.AugAssign: return self.simple(st, lambda: self.aug(s))
        if t is ast.Expr: return self.simple(st, lambda: self.ev(s.value))
        if t is ast.Delete:
            def f():
                for tg in s.targets:
                    if isinstance(tg, ast.Name): self.st.env.pop(tg.id, None)
                    elif isinstance(tg, ast.Subscript):
                        d = self.ev(tg.value); k = self.key(self.ev(tg.slice))
                        if not isinstance(d, Dct): raise Unsupported('del')
                        dd = dict(self.dct(d))
                        if k not in dd: raise PyExc('KeyError')
                        del dd[k]; self.st.heap[d.cell] = dd
                    else: raise Unsupported('del')
            return self.simple(st, f)
        if t is ast.Import or t is ast.ImportFrom:
            st = st.copy()
            for a in s.names: st.env[(a.asname or a.name).split('.')[0]] = Nat(f'{s.module}.{a.name}' if t is ast.ImportFrom else a.name)
            return [('normal', None, st)]
        raise Unsupported(f'statement {t.__name__}')

    def simple(self, st, f):
        return [('normal', None, s2) if k == 'ok' else (k, v, s2) for k, v, s2 in self.fork(st, f)]

    def s_if(self, s, st):
        mark = self.cellmark()
        outs = []
        normal = []
        for k, c, s1 in self.fork(st, lambda: self.truth(self.ev(s.test))):
            if k != 'ok': outs.append((k, c, s1)); continue
            self.st, sv = s1, self.st
            d = self.decide(c); self.st = sv
            for pol, body in ((True, s.body), (False, s.orelse)):
                if d is not None and d is not pol: continue
                s2 = s1.copy()
                if d is None: s2.assume(c if pol else not_(c))
                for k2, v2, s3 in self.block(body, s2) if body else [('normal', None, s2)]:
                    if k2 == 'normal': normal.append(s3)
                    else: outs.append((k2, v2, s3))
        return [('normal', None, x) for x, _ in self.join(normal, mark)] + outs

    def cellmark(self):
        import vals
        return next(vals._cid)

    def s_try(self, s, st):
        outs = []
        mark = self.cellmark(); normal = []
        for k, v, s1 in self.block(s.body, st):
            if k == 'raise':
                for h in s.handlers:
                    names = None
                    if h.type is not None:
                        names = [n.id if isinstance(n, ast.Name) else n.attr for n in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                    if names is None or any(is_sub(v.kind, n) for n in names):
                        s2 = s1.copy()
                        if h.name: s2.env[h.name] = f'{v.kind}'
                        for k2, v2, s3 in self.block(h.body, s2):
                            if k2 == 'normal': normal.append(s3)
                            else: outs.append((k2, v2, s3))
                        break
                else: outs.append((k, v, s1))
            elif k == 'normal':
                for k2, v2, s3 in self.block(s.orelse, s1) if s.orelse else [('normal', None, s1)]:
                    if k2 == 'normal': normal.append(s3)
                    else: outs.append((k2, v2, s3))
            else: outs.append((k, v, s1))
        r = [('normal', None, x) for x, _ in self.join(normal, mark)] + outs
        if s.finalbody:
            r2 = []
            for k, v, s1 in r:
                for k2, v2, s3 in self.block(s.finalbody, s1):
                    r2.append((k, v, s3) if k2 == 'normal' else (k2, v2, s3))
            r = r2
        return r

    def s_while(self, s, st):
        """only loops that unroll completely"""
        outs, cur = [], [st]
        for _ in range(self.maxunroll):
            nxt = []
            for c0 in cur:
                for k, c, s1 in self.fork(c0, lambda: self.truth(self.ev(s.test))):
                    if k != 'ok': outs.append((k, c, s1)); continue
                    self.st, sv = s1, self.st
                    d = self.decide(c); self.st = sv
                    if d is None: raise Unsupported('while with a symbolic condition')
                    if not d: outs.append(('normal', None, s1)); continue
                    for k2, v2, s3 in self.block(s.body, s1):
                        if k2 in ('normal', 'continue'): nxt.append(s3)
                        elif k2 == 'break': outs.append(('normal', None, s3))
                        else: outs.append((k2, v2, s3))
            cur = nxt
            if not cur: return outs
        raise Unsupported('while loop too long')

    def s_for(self, s, st):
        outs = []
        for k, v, s1 in self.fork(st, lambda: self.iter(self.ev(s.iter))):
            if k != 'ok': outs.append((k, v, s1)); continue
            outs += self.loop(s, v, s1)
        return outs

    def loop(self, s, seq, st):
        n, elt = seq
        self.st, sv = st, self.st
        try: nn = cint(self.simp(n)) if not isc(n) else int(n.data)
        finally: self.st = sv
        if nn is not None and nn <= self.maxunroll:
            outs, cur = [], [st]
            mark = self.cellmark()
            for k in range(max(nn, 0)):
                nxt = []
                for c in cur:
                    for kd, v, s1 in self.fork(c, lambda: self.assign(s.target, elt(I(k)))):
                        if kd != 'ok': outs.append((kd, v, s1)); continue
                        for k2, v2, s3 in self.block(s.body, s1):
                            if k2 in ('normal', 'continue'): nxt.append(s3)
                            elif k2 == 'break': outs.append(('normal', None, s3))
                            else: outs.append((k2, v2, s3))
                if len(nxt) > 1: nxt = [x for x, _ in self.join(nxt, mark)]
                cur = nxt
                if len(cur) > 48: raise Unsupported('too many paths in a loop')
            if s.orelse: raise Unsupported('for-else')
            return outs + [('normal', None, x) for x in cur]
        import loops
        for inv in self.invs:
            if inv.fn == self.curfn and inv.applies(self, s, n, st): return loops.by_invariant(self, s, n, elt, st, inv)
        return loops.summarise(self, s, n, elt, st)

    # ------------------------------------------------------------ assignment
    def assign(self, tg, v):
        if isinstance(tg, ast.Name):
            self.st.env[tg.id] = v
        elif isinstance(tg, (ast.Tuple, ast.List)):
            if any(isinstance(e, ast.Starred) for e in tg.elts): raise Unsupported('starred target')
            vs = self.unpack(v, len(tg.elts))
            for e, x in zip(tg.elts, vs): self.assign(e, x)
        elif isinstance(tg, ast.Subscript):
            o = self.ev(tg.value); self.setitem(o, self.ev(tg.slice), v)
        elif isinstance(tg, ast.Attribute): raise Unsupported('attribute assignment')
        else: raise Unsupported('target')

    def unpack(self, v, n):
        if isinstance(v, tuple):
            if len(v) != n: raise PyExc('ValueError')
            return v
        m, elt = self.iter(v)
        self.require(eq(m, n), 'ValueError', 'unpack')
        return [elt(I(k)) for k in range(n)]

    def aug(self, s):
        import npm
        if isinstance(s.target, ast.Name):
            o = self.name(s.target.id); v = self.ev(s.value)
            if isinstance(o, Arr):
                r = npm.binop(self, s.op, o, v, inplace=True); return
            if isinstance(o, Lst) and isinstance(s.op, ast.Add):
                for x in self.items(v): self.lappend(o, x)
                return
            self.st.env[s.target.id] = npm.binop(self, s.op, o, v)
        elif isinstance(s.target, ast.Subscript):
            o = self.ev(s.target.value); k = self.ev(s.target.slice)
            cur = self.getitem(o, k)
            v = self.ev(s.value)
            if isinstance(cur, Arr) and isinstance(o, (Dct, Lst)): npm.binop(self, s.op, cur, v, inplace=True); return
            self.setitem(o, k, npm.binop(self, s.op, cur, v))
        else: raise Unsupported('augmented target')

    def lappend(self, l, x):
        if l.cell in self.st.frozen: raise Unsupported('append to a list that may be shared by two branches')
        s = self.st.content(l.cell)
        if s.items is not None and s.cat is None: self.st.heap[l.cell] = SeqV(items=s.items + [x]); return
        if s.cat is not None and s.cat[0] is not None:
            self.st.heap[l.cell] = SeqV(n=add(s.n, 1), elt=self.no_elt, cat=(s.cat[0], s.cat[1] + [(TRUE, x)])); return
        self.st.heap[l.cell] = SeqV(n=add(s.n, 1), elt=lambda i: self.mobj2(eq(i, s.n), x, lambda: s.elt(i)), cat=(s, [(TRUE, x)]))

    def mobj2(self, c, a, b):
        if isc(c): return a if c.data else b()
        return s_where(c, a, b())

    # ------------------------------------------------------------ expressions
    def name(self, nm):
        e = self.st.env
        if nm in e:
            v = e[nm]
            if v is UNDEF: raise Unsupported(f'{nm} may be unbound')
            return v
        v = self.lookup_mod(self.curmod, nm)
        if v is not None: return v
        if nm in ('True', 'False', 'None'): return dict(true=TRUE)[nm]
        if hasattr(builtins, nm): return Nat('builtins.' + nm)
        raise PyExc('NameError', nm)

    def truth(self, v):
        if isinstance(v, (T, F, str, bool)) or v is None: return truth(v)
        if isinstance(v, tuple): return B(len(v) > 0)
        if isinstance(v, Lst): return gt(self.st.content(v.cell).n, 0)
        if isinstance(v, Dct): return B(len(self.dct(v)) > 0)
        if isinstance(v, Arr):
            a = self.av(v)
            self.require(eq(a.size, 1), 'ValueError', 'truth of an array')
            return truth(a.elt(*[I(0)] * a.ndim))
        if isinstance(v, Obj) and '__bool__' in v.m: return v.m['__bool__'](self)
        if isinstance(v, (Fun, Nat)): return TRUE
        raise Unsupported(f'truth of {v!r}')

    def const(self, v):
        if v is None or isinstance(v, str): return v
        if isinstance(v, bool): return B(v)
        if isinstance(v, int): return I(v)
        if isinstance(v, float):
            if v != v: return NAN
            if v in (float('inf'), float('-inf')): return F(R(0), FALSE, TRUE)
            return F(R(Fr(str(v)) if 'e' not in repr(v).lower() else Fr(repr(v))))
        if v is Ellipsis: return Ellipsis
        if isinstance(v, bytes): return v
        raise Unsupported(f'constant {v!r}')

    def ev(self, n):
        import npm
        t = type(n)
        if t is ast.Constant: return self.const(n.value)
        if t is ast.Name: return self.name(n.id)
        if t is ast.Tuple: return tuple(self.ev(e) for e in n.elts)
        if t is ast.List:
            out = []
            for e in n.elts:
                if isinstance(e, ast.Starred):
                    m, elt = self.iter(self.ev(e.value)); c = cint(self.simp(m))
                    if c is None: raise Unsupported('starred list')
                    out += [elt(I(k)) for k in range(c)]
                else: out.append(self.ev(e))
            return mklist(out)
        if t is ast.Dict:
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None: d.update(self.dct(self.ev(v)))
                else: d[self.key(self.ev(k))] = self.ev(v)
            return mkdict(d)
        if t is ast.BinOp: return npm.binop(self, n.op, self.ev(n.left), self.ev(n.right))
        if t is ast.UnaryOp:
            v = self.ev(n.operand)
            if isinstance(n.op, ast.Not): return not_(self.truth(v))
            return npm.unop(self, n.op, v)
        if t is ast.Compare:
            l = self.ev(n.left); r = None
            for op, c in zip(n.ops, n.comparators):
                if r is not None and isinstance(r, T) and r is FALSE: return FALSE
                x = self.ev(c)
                y = npm.compare(self, op, l, x)
                if r is None: r = y
                else:
                    if isinstance(r, Arr) or isinstance(y, Arr): raise Unsupported('chained comparison of arrays') if not self._size1(r, y) else None
                    r = and_(self.truth(r), self.truth(y))
                l = x
            return r
        if t is ast.BoolOp:
            isand = isinstance(n.op, ast.And)
            v = self.ev(n.values[0])
            for e in n.values[1:]:
                c = self.truth(v)
                d = self.decide(c)
                if d is isand: v = self.ev(e); continue
                if d is not None: return v
                # both ways: evaluate the right operand under the condition
                v = self.short(c if isand else not_(c), e, v, isand)
            return v
        if t is ast.IfExp:
            c = self.truth(self.ev(n.test)); d = self.decide(c)
            if d is not None: return self.ev(n.body if d else n.orelse)
            return self.pick(c, n.body, n.orelse)
        if t is ast.Subscript:
            return self.getitem(self.ev(n.value), self.ev(n.slice))
        if t is ast.Slice:
            f = lambda x: self.ev(x) if x is not None else None
            return SliceV(f(n.lower), f(n.upper), f(n.step))
        if t is ast.Attribute: return npm.attr(self, self.ev(n.value), n.attr)
        if t is ast.Call: return self.e_call(n)
        if t is ast.Lambda: return Fun(n, self.curmod, env=dict(self.st.env), name='<lambda>')
        if t in (ast.ListComp, ast.GeneratorExp, ast.SetComp): return self.comp(n)
        if t is ast.DictComp:
            return self.dictcomp(n)
        if t is ast.JoinedStr: return '<fstring>'
        if t is ast.Starred: raise Unsupported('starred')
        raise Unsupported(f'expression {t.__name__}')

    def _size1(self, *vs): return False

    def short(self, c, e, v, isand):
        """value of `v and e` / `v or e` where c: the right operand is evaluated"""
        i = self.choose_pure(c, e)
        if i is not None:
            w = i
            if isinstance(v, T) and v.sort == 'B' and isinstance(w, T) and w.sort == 'B': return and_(v, w) if isand else or_(v, w)
            try: return s_where(c, w, v)
            except Unsupported: return and_(self.truth(v), self.truth(w)) if isand else or_(self.truth(v), self.truth(w))
        if self.branch(c): return self.ev(e)
        return v

    def choose_pure(self, c, e):
        """value of e under c if it has a single normal outcome without effects, else None"""
        s = self.st.copy(); s.assume(c)
        outs = self.fork(s, lambda: self.ev(e))
        if len(outs) == 1 and outs[0][0] == 'ok' and outs[0][2].heap == self.st.heap and isnum(outs[0][1]):
            for f in outs[0][2].facts:
                if f not in self.st.facts: self.st.facts.append(f)
            return outs[0][1]
        return None

    def pick(self, c, a, b):
        x, y = self.choose_pure(c, a), self.choose_pure(not_(c), b)
        if x is not None and y is not None: return s_where(c, x, y)
        return self.ev(a) if self.branch(c) else self.ev(b)

    def comp(self, n):
        tmp = f'$c{n.lineno}_{n.col_offset}'
        name = ast.Name(tmp, ast.Load())
        body = [ast.Expr(ast.Call(ast.Attribute(name, 'append', ast.Load()), [n.elt], []))]
        for g in reversed(n.generators):
            for c in reversed(g.ifs): body = [ast.If(c, body, [])]
            body = [ast.For(g.target, g.iter, body, [])]
        names = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
        saved = {k: self.st.env.get(k) for k in names}
        stmts = [ast.Assign([ast.Name(tmp, ast.Store())], ast.List([], ast.Load()))] + body
        for s in stmts: ast.fix_missing_locations(s)
        self.sub(stmts)
        r = self.st.env.pop(tmp)
        for k, v in saved.items():
            if v is None: self.st.env.pop(k, None)
            else: self.st.env[k] = v
        return r

    def dictcomp(self, n):
        g, = n.generators
        m, elt = self.iter(self.ev(g.iter)); c = cint(self.simp(m))
        if c is None or g.ifs: raise Unsupported('dictionary comprehension')
        d = {}; saved = dict(self.st.env)
        for k in range(c):
            self.assign(g.target, elt(I(k))); d[self.key(self.ev(n.key))] = self.ev(n.value)
        self.st.env = saved
        return mkdict(d)

    def sub(self, stmts):
        """runs statements inside an expression"""
        outs = self.block(stmts, self.st.copy())
        self.adopt(outs)

    def adopt(self, outs, base=None):
        """continues with one of the outcomes; returns (kind, value)"""
        if not outs: raise Dead()
        b = len(self.st.pc)
        i = 0
        if len(outs) > 1:
            i = self.choose([and_(*o[2].pc[b:]) for o in outs])
        k, v, s = outs[i]
        env = self.st.env
        self.st.heap, self.st.facts, self.st.frozen = s.heap, s.facts, s.frozen
        self.st.pc = s.pc
        if k == 'raise': raise v
        if k == 'normal': self.st.env = s.env
        return k, v

    # ------------------------------------------------------------ calls
    def e_call(self, n):
        import npm
        f = self.ev(n.func) if not isinstance(n.func, ast.Attribute) else None
        if f is None:
            o = self.ev(n.func.value)
            m = n.func.attr
            args = self.args(n)
            if isinstance(o, Nat): return self.call(npm.attr(self, o, m), *args)
            return npm.method(self, o, m, *args)
        return self.call(f, *self.args(n))

    def args(self, n):
        a = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                if isinstance(v, tuple): a += v
                else: a += self.items(v)
            else: a.append(self.ev(x))
        kw = {}
        for k in n.keywords:
            if k.arg is None: kw.update(self.dct(self.ev(k.value)))
            else: kw[k.arg] = self.ev(k.value)
        return a, kw

    def call(self, f, args, kw=None):
        import npm
        kw = kw or {}
        if isinstance(f, Nat): return npm.native(self, f.name, args, kw)
        if isinstance(f, Fun): return self.call_fun(f, args, kw)
        if isinstance(f, Obj) and '__call__' in f.m: return f.m['__call__'](self, args, kw)
        if callable(f): return f(self, args, kw)
        raise Unsupported(f'call of {f!r}')

    def call_fun(self, f, args, kw, top=False):
        key = f'{f.mod}.{f.name}'
        if key in self.over: return self.over[key](self, args, kw)
        if self.depth > 12: raise Unsupported('call depth')
        a = f.node.args
        if getattr(f.node, 'decorator_list', None):
            for d in f.node.decorator_list:
                nm = d.func if isinstance(d, ast.Call) else d
                nm = nm.id if isinstance(nm, ast.Name) else nm.attr
                if nm != 'lru_cache': raise Unsupported(f'decorator {nm}')
        env = dict(f.env) if f.env else {}
        names = [x.arg for x in a.posonlyargs + a.args]
        if len(args) > len(names) and not a.vararg: raise PyExc('TypeError', 'arguments')
        for nm, v in zip(names, args): env[nm] = v
        if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
        for k, v in kw.items():
            if k not in names and k not in [x.arg for x in a.kwonlyargs]:
                raise PyExc('TypeError', f'unexpected argument {k}')
            env[k] = v
        save = (self.st, getattr(self, 'curmod', None))
        dn = names[len(names) - len(a.defaults):]
        for nm, d in list(zip(dn, a.defaults)) + [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if not (nm in names[:len(args)] or nm in kw):
                self.curmod = f.mod
                s0 = self.st.env; self.st.env = {}
                env[nm] = self.ev(d)
                self.st.env = s0; self.curmod = save[1]
        for nm in names:
            if nm not in env or (f.env and nm not in names[:len(args)] and nm not in kw and nm not in dn): raise PyExc('TypeError', f'missing argument {nm}')
        mark = self.cellmark()
        s = State(env, dict(self.st.heap), list(self.st.pc), list(self.st.facts), self.st.frozen)
        self.curmod = f.mod; self.depth += 1
        self.inlined.add(key); sfn, self.curfn = self.curfn, key
        try:
            if isinstance(f.node, ast.Lambda):
                outs = [('return', v, s2) if k == 'ok' else (k, v, s2) for k, v, s2 in self.fork(s, lambda: self.ev(f.node.body))]
            else: outs = self.block(f.node.body, s)
        finally:
            self.depth -= 1; self.curmod = save[1]; self.curfn = sfn
        outs = self.returns(outs, mark)
        if top: return outs
        k, v = self.adopt(outs)
        return v

    def returns(self, outs, mark):
        rs, vs, ot = [], [], []
        for k, v, s in outs:
            if k in ('normal', 'return'):
                s = s.copy(); s.env = {}
                rs.append(s); vs.append(v if k == 'return' else None)
            else:
                s = s.copy(); s.env = {}; ot.append((k, v, s))
        j = self.join(rs, mark, vs)
        # exceptions of one kind are one outcome
        ex = {}
        for k, v, s in ot: ex.setdefault((k, v.kind if isinstance(v, PyExc) else None), []).append((v, s))
        eo = []
        for (k, _), l in ex.items():
            eo += [(k, l[0][0], s) for s, _ in self.join([s for _, s in l], mark, [None] * len(l))]
        return [('return', v, s) for s, v in j] + eo

    def run(self, fun, args, kw=None, pc=(), facts=()):
        """outcomes [(kind, value, state)] of a top-level call under the hypotheses"""
        self.st = State(pc=list(pc), facts=list(facts)); self.trace = []; self.pos = 0
        try: outs = self.call_fun(fun, list(args), kw or {}, top=True)
        except PyExc as e: outs = [('raise', e, self.st)]
        self.st = State(pc=list(pc), facts=list(facts))
        return outs

    # ------------------------------------------------------------ containers
    def key(self, k):
        if isinstance(k, str): return k
        if isinstance(k, T) and isc(k): return int(k.data) if k.sort == 'I' else k.data
        if isinstance(k, tuple): return tuple(self.key(x) for x in k)
        raise Unsupported(f'dictionary key {k!r}')

    def iter(self, v):
        """(length, element function)"""
        if isinstance(v, RangeV): return v.n, v.elt
        if isinstance(v, tuple): return I(len(v)), lambda i: self._pickc(v, i)
        if isinstance(v, str): return I(len(v)), lambda i: v[cint(i)]
        if isinstance(v, Lst):
            s = self.st.content(v.cell)
            return s.n, (lambda i: self._pickc(s.items, i)) if s.items is not None else s.elt
        if isinstance(v, Arr):
            import npm
            a = self.av(v)
            if a.ndim == 0: raise PyExc('TypeError', 'iteration over a scalar')
            if a.ndim == 1: return a.shape[0], lambda i: a.elt(i)
            return a.shape[0], lambda i: npm.view_index(self, v, i)
        if isinstance(v, Dct):
            ks = list(self.dct(v)); return I(len(ks)), lambda i: self._pickk(ks, i)
        if hasattr(v, 'iter'): return v.iter(self)
        raise Unsupported(f'iteration over {v!r}')

    def _pickc(self, xs, i):
        c = cint(i)
        if c is None: raise Unsupported('symbolic index into a tuple')
        return xs[c]

    def _pickk(self, ks, i):
        k = ks[cint(i)]
        return k if isinstance(k, str) else I(k)

    def length(self, v):
        if isinstance(v, (tuple, str)): return I(len(v))
        if isinstance(v, Lst): return self.st.content(v.cell).n
        if isinstance(v, Dct): return I(len(self.dct(v)))
        if isinstance(v, Arr):
            a = self.av(v)
            if a.ndim == 0: raise PyExc('TypeError', 'len() of unsized object')
            return a.shape[0]
        if hasattr(v, 'length'): return v.length(self)
        if isinstance(v, RangeV): return v.n
        if isnum(v) or v is None: raise PyExc('TypeError', 'len()')
        raise Unsupported(f'length of {v!r}')

    def index(self, i, n):
        """non-negative index into a sequence of length n; IndexError outside"""
        if isinstance(i, Arr):
            a = self.av(i); i = a.elt(*[I(0)] * a.ndim)
        if isinstance(i, F): raise PyExc('IndexError', 'float index')
        i = it(i)
        if self.holds(and_(le(0, i), lt(i, n))): return i
        if self.holds(and_(lt(i, 0), le(neg(n), i))): return add(i, n)
        c = self.choose([and_(le(0, i), lt(i, n)), and_(lt(i, 0), le(neg(n), i)), or_(le(n, i), lt(i, neg(n)))])
        if c == 2: raise PyExc('IndexError')
        return i if c == 0 else add(i, n)

    def getitem(self, o, k):
        import npm
        if isinstance(o, Arr): return npm.getitem(self, o, k)
        if isinstance(o, Dct):
            d = self.dct(o); kk = self.key(k)
            if kk not in d: raise PyExc('KeyError', str(kk))
            if d[kk] is UNDEF: raise Unsupported(f'key {kk} may be missing')
            return d[kk]
        if isinstance(o, (tuple, Lst)):
            n = self.length(o)
            if isinstance(k, SliceV):
                a, m, s = npm.slice_range(self, k, n)
                ca, cm, cs = cint(a), cint(self.simp(m)), cint(s)
                if isinstance(o, tuple): return o[ca:ca + cm * cs:cs]
                sv = self.st.content(o.cell)
                if sv.items is not None and None not in (ca, cm, cs): return mklist([sv.items[ca + j * cs] for j in range(cm)])
                return mkseq(SeqV(n=m, elt=lambda i: sv.elt(add(a, mul(i, s)))))
            if not isint(k):
                if isinstance(k, F): raise PyExc('TypeError', 'float index')
                if isinstance(k, Arr) and self.av(k).ndim <= 1: pass
                else: raise Unsupported(f'list index {k!r}')
            i = self.index(k, n)
            if isinstance(o, tuple): return self._pickc(o, i)
            sv = self.st.content(o.cell)
            if sv.items is not None and cint(i) is None:
                r = None
                for j in range(len(sv.items) - 1, -1, -1):
                    r = sv.items[j] if r is None else s_where(eq(i, j), sv.items[j], r)
                return r
            return sv.elt(i)
        if hasattr(o, 'getitem'): return o.getitem(self, k)
        if isinstance(o, str): 
            if isinstance(k, SliceV): return o[slice(*[cint(x) if x is not None else None for x in (k.a, k.b, k.s)])]
            return o[cint(k)]
        if isinstance(o, Obj) and '__getitem__' in o.m: return o.m['__getitem__'](self, k)
        if isnum(o):
            raise PyExc('IndexError' if isinstance(o, F) else 'TypeError', 'not subscriptable')
        raise Unsupported(f'subscript of {o!r}')

    def setitem(self, o, k, v):
        import npm
        if isinstance(o, Arr): return npm.setitem(self, o, k, v)
        if isinstance(o, Dct): return self.dset(o, self.key(k), v)
        if isinstance(o, Lst):
            if o.cell in self.st.frozen: raise Unsupported('write to a shared list')
            s = self.st.content(o.cell)
            i = self.index(k, s.n); c = cint(i)
            if s.items is not None and c is not None:
                self.st.heap[o.cell] = SeqV(items=s.items[:c] + [v] + s.items[c + 1:]); return
            if s.items is not None:
                self.st.heap[o.cell] = SeqV(items=[s_where(eq(i, j), v, x) for j, x in enumerate(s.items)]); return
            self.st.heap[o.cell] = SeqV(n=s.n, elt=lambda j: self.mobj2(eq(j, i), v, lambda: s.elt(j))); return
        raise Unsupported(f'item assignment to {o!r}')
