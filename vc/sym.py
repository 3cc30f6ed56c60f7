"""Symbolic execution of a contract: the contract file is run by the symbolic interpreter together with the
real code of the repository; every v.eq / v.le / v.check / frame condition becomes a proof obligation."""
import zlib
import time, itertools, os, traceback
from . import terms as T, arrays as A, npmodel as N, interp as I, smt
from .terms import expr, ZERO, ONE, cmp_le, cmp_lt, cmp_eq, sym, atom, gensym, Unsupported, Expr, Cond, Lam, subst
from .arrays import Arr, PyExc, IX, Seq, toarr, dim, is1

_CDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'contracts')
SHARED = {'contracts.' + f[:-3]: open(os.path.join(_CDIR, f)).read() for f in sorted(os.listdir(_CDIR)) if f.endswith('.py')}

class DimFork(Exception):
    def __init__(self, name, k): self.name = name; self.k = k

class Assume(Exception):
    """path discarded: assumption contradictory"""

class Rec(object):
    """obligation recorder"""
    def __init__(self): self.obl = []; self.case = ''; self.soft = False
    def undecided(self, ok, detail): return self.soft and not ok and ('cnt!' in detail or 'enum!' in detail)
    def add(self, label, ok, detail='', backend=''):
        if self.undecided(ok, detail): raise Unsupported('undecided statement about selected elements: ' + label)
        self.obl.append(dict(label=label, ok=bool(ok), detail=detail if not ok else '', backend=backend, case=self.case))
    def safety(self, msg, ok, detail=''):
        self.add('safety: ' + msg[:100], ok, 'not provable: ' + detail[:300], 'z3')

class V(object):
    def __init__(self, it, rec, dimsub):
        self.I = it; self.rec = rec; self.dimsub = dimsub
        self.dims = {}
        self.choices = []
        self.table = {}
        for n in ('dim', 'arr', 'spd', 'psd', 'pos', 'idx', 'num', 'posnum', 'choose', 'eq', 'le', 'check', 'quad', 'snap', 'unchanged',
                  'disjoint', 'same', 'uf', 'rowuf', 'moments', 'derivative', 'assume', 'categorical', 'conditional', 'sampling', 'sampled', 'asidx', 'index', 'raises', 'tag', 'fail', 'setrange',
                  'const', 'note', 'uniforms', 'isarr', 'shape', 'perm', 'ints', 'havoc', 'weights', 'deriv', 'stub', 'ge', 'lw', 'mat', 'approx',
                  'expect', 'replace', 'symbolic', 'concat', 'record', 'deriv_check', 'dimvals', 'lowvar', 'fresh_idx', 'fresh', 'patch', 'cut', 'unsupported', 'soft_selections', 'subset', 'perm', 'unif', 'drawn'):
            if hasattr(self, n): self.table[n] = getattr(self, n)
        self.table['symbolic'] = True
    # -------------------------------------------------- inputs
    def dim(self, name, lo=1, hi=None):
        """an arbitrary size of at least lo (hi only limits the sizes of the concrete runs)"""
        if name in self.dimsub:
            return self.dimsub[name]
        d = sym(name, True)
        if name not in self.dims:
            self.dims[name] = d
            c = T.get_ctx()
            c.push(cmp_le(expr(lo), d))
            if lo >= 1: c.flags.setdefault(name, set()).add('pos')
        return d
    def arr(self, name, *shape):
        self.named(name)
        shape = tuple(dim(s) for s in shape)
        return Arr.new(shape, T.app(name, *[ZERO if is1(s) else IX[k] for k, s in enumerate(shape)]), 'f')
    def mat(self, name, *shape): return self.arr(name, *shape)
    def lw(self, name, n): return self.arr(name, n)
    def weights(self, name, n):
        T.get_ctx().flags.setdefault(name, set()).add('nonneg')
        return self.arr(name, n)
    def named(self, name):
        if '?' in name or '%' in name: raise Unsupported('input with a symbolic name')
    def ints(self, name, *shape):
        self.named(name)
        shape = tuple(dim(s) for s in shape)
        return Arr.new(shape, T.app(name, *[ZERO if is1(s) else IX[k] for k, s in enumerate(shape)], isint=True), 'i')
    def spd(self, name, n, batch=()):
        k = len(batch)
        name = '%s^%d' % (name, k)      # a name of its own: symmetry is a property of the name
        T.SYMMETRIC[name] = (k, k + 1)
        T.get_ctx().flags.setdefault(name, set()).add(('pd', k))
        if is1(dim(n)): T.get_ctx().flags.setdefault(name, set()).add('pos')
        return self.arr(name, *(tuple(batch) + (n, n)))
    def psd(self, name, n, batch=()):
        k = len(batch)
        name = '%s^%d' % (name, k)      # a name of its own: symmetry is a property of the name
        T.SYMMETRIC[name] = (k, k + 1)
        T.get_ctx().flags.setdefault(name, set()).add(('psd', k))
        if is1(dim(n)): T.get_ctx().flags.setdefault(name, set()).add('nonneg')
        return self.arr(name, *(tuple(batch) + (n, n)))
    def pos(self, name, *shape):
        T.get_ctx().flags.setdefault(name, set()).add('pos')
        return self.arr(name, *shape)
    def idx(self, name, n, *shape):
        T.get_ctx().flags.setdefault(name, set()).add(('range', ZERO, expr(n)))
        return self.ints(name, *shape)
    def fresh_idx(self, n, m):
        """fresh arbitrary indices below n (one array per call, also inside loops)"""
        nm = N.fresh_rand('fidx', (dim(m),))
        T.get_ctx().flags.setdefault(nm, set()).add(('range', ZERO, expr(n)))
        return Arr.new((dim(m),), T.app(nm, *(N.lv() + (IX[0],)), isint=True), 'i')
    def subset(self, name, n, m):
        """n distinct arbitrary indices below m, in any order"""
        mem = name + '!in'; pos = name + '!at'
        n = dim(n)
        fl = T.get_ctx().flags
        fl.setdefault(name, set()).add(('range', ZERO, expr(m)))
        fl.setdefault(pos, set()).add(('range', ZERO, expr(n)))
        T.APP_RULES[mem] = (name, lambda args: ONE)
        T.APP_RULES[pos] = (name, lambda args: args[0])
        A.SUBSETS[name] = (mem, pos, n)
        T.get_ctx().push(cmp_le(expr(n), expr(m)))
        return self.ints(name, n)
    def _draw(self, kind, i):
        l = [e for e in N.Rand.log if e[0].split('!')[0] == kind]
        if not l: raise Unsupported('no draw of kind %s' % kind)
        return l[i]
    def drawn(self, kind):
        """number of draws of a kind (unif, perm, samp) made so far"""
        return len([e for e in N.Rand.log if e[0].split('!')[0] == kind])
    def perm(self, i):
        """the i-th random permutation drawn"""
        nm, s = self._draw('perm', i)
        return Arr.new(s, T.app(nm, IX[0], isint=True), 'i')
    def unif(self, i):
        nm, s = self._draw('unif', i)
        return Arr.new(s, T.app(nm, *[ZERO if is1(q) else IX[k] for k, q in enumerate(s)]))
    def sampling(self):
        """from here on calls of pyparticleest.filter.sample are checked against its contract (P04) instead of its body: they
        return arbitrary valid indices, and the weights and counts they were given are kept for v.conditional / v.lowvar"""
        self.samp = {}
        def h(it, args, kw):
            kw = dict(kw)
            w = toarr(it.conc(args[0] if args else kw.pop('w')))
            n = it.conc(args[1] if len(args) > 1 else kw.pop('n'))
            n = dim(n)
            if kw or w.ndim != 1: raise Unsupported('arguments of sample')
            nm = N.fresh_rand('samp', (n,))
            T.get_ctx().flags.setdefault(nm, set()).add(('range', ZERO, expr(w.shape[0])))
            k = A.in_range(w.shape)
            try: wb = T.renorm(w.body)
            finally: A.popn(k)
            self.samp[nm] = (tuple(N.Rand.loop), Arr.new(w.shape, wb), n)
            return Arr.new((n,), T.app(nm, *(N.lv() + (IX[0],)), isint=True), 'i')
        self.I.intercept['pyparticleest.filter.sample'] = h
    def sampled(self, i):
        """(weights, count, returned indices) of the i-th abstracted call of sample"""
        nm = list(self.samp)[i]
        loop, w, n = self.samp[nm]
        if loop: raise Unsupported('sample called in a loop')
        return (Arr.new(w.shape, w.body), n, Arr.new((n,), T.app(nm, IX[0], isint=True), 'i'))
    def _sampled(self, e):
        """(weights, number of draws, position) if e is an element returned by an abstracted call of sample"""
        a = T._as_atom(e)
        if a is None or a.kind != 'app' or a.args[0] not in getattr(self, 'samp', {}): return None
        loop, w, n = self.samp[a.args[0]]
        args = a.args[1:]
        w = Arr.new(w.shape, subst(w.body, dict((g.key, q) for g, q in zip(loop, args))))
        return w, n, args
    def quad(self, e, S, A_=None, P_=None):
        """e' inv(S) e, which is non-negative because S is positive definite (lemma of linear algebra); used with v.le as an
        explicit amount of slack"""
        e = toarr(e); S = toarr(S)
        for X in [S] + ([toarr(P_)] if P_ is not None else []):
            a = T._as_atom(X.body)
            if a is None or a.kind != 'app' or not any(isinstance(f, tuple) and f[0] == 'pd' for f in T.get_ctx().flags.get(a.args[0], ())):
                raise Unsupported('quadratic form in a matrix not known to be positive definite')
        if P_ is not None:      # inverse of S + A P A'
            import ast; S = self.I.binop(ast.Add(), N.dot(N.dot(A_, P_), toarr(A_).T), S)
        return N.dot(N.dot(e, N.inv(S)), e)
    def fresh(self, *shape):
        shape = tuple(dim(s) for s in shape)
        nm = N.fresh_rand('fresh', shape)
        return Arr.new(shape, T.app(nm, *(N.lv() + tuple(IX[:len(shape)]))))
    def num(self, name): return sym(name)
    def posnum(self, name):
        T.get_ctx().flags.setdefault(name, set()).add('pos')
        s = sym(name); T.get_ctx().push(cmp_lt(ZERO, s)); return s
    def choose(self, name, options):
        p = self.I.path
        options = list(options)
        k = len(p.taken)
        if k < len(p.prefix): i = p.prefix[k]
        else:
            i = 0
            for j in range(1, len(options)): p.alts.append(list(p.taken) + [j])
        p.taken.append(i)
        self.choices.append('%s=%r' % (name, options[i]))
        self.rec.case = ' '.join(self.choices)
        if len(self.choices) == SPLIT_DEPTH and not self.mine(): raise NotMine()
        return options[i]
    def mine(self):
        k, n = self.part
        return n == 1 or zlib.crc32(repr(self.choices[:SPLIT_DEPTH]).encode()) % n == k
    def assume(self, c):
        c = self.I.tcond(c)
        if isinstance(c, Cond): T.get_ctx().push(c)
        elif not c: raise Assume()
    def index(self, name, n):
        i = sym(name, True)
        c = T.get_ctx(); c.push(cmp_le(ZERO, i)); c.push(cmp_lt(i, expr(n)))
        return i
    def tag(self, name):
        """opaque value (input signal / time stamp / measurement)"""
        self.named(name)
        return sym(name)
    def note(self, *a): pass
    def record(self, *a): pass
    # -------------------------------------------------- uninterpreted functions
    def _flat(self, x, out):
        if x is None: out.append('None')
        elif isinstance(x, bool): out.append(str(x))
        elif isinstance(x, str): out.append("'" + x)
        elif isinstance(x, (int, Expr)) or hasattr(x, 'numerator'): out.append(expr(x))
        elif isinstance(x, Cond): out.append(T.ind(x))
        elif isinstance(x, Arr):
            out.append('a%d' % x.ndim)
            for s in x.shape: out.append(expr(s))
            n = A.in_range(x.shape)
            try: b = T.renorm(x.body)
            finally: A.popn(n)
            a2 = Arr(A.Buf(x.shape, b, x.dtype), x.shape, IX[:x.ndim])
            out.append(A.lamn(a2))
        elif isinstance(x, (list, tuple)):
            out.append('L%d' % len(x))
            for y in x: self._flat(y, out)
        elif isinstance(x, Seq): self._flat(A.seq_to_arr(x), out)
        elif isinstance(x, N.ObjArr): self._flat(x.items, out)
        elif isinstance(x, I.Obj): out.append('obj%d' % x.serial)
        elif isinstance(x, dict):
            for k in sorted(x): out.append("'" + str(k)); self._flat(x[k], out)
        else: raise Unsupported('uninterpreted function of %s' % type(x).__name__)
    def uf(self, name, shape, *args):
        fa = []
        for a in args: self._flat(a, fa)
        shape = tuple(dim(s) for s in (shape or ()))
        if not shape: return T.app(name, *fa)
        return Arr.new(shape, T.app(name, *(list(IX[:len(shape)]) + fa)))
    def rowuf(self, name, n, shape, rows, *args, **kw):
        """array (n,)+shape; row i depends on the i-th rows of `rows` and on the shared args"""
        fa = []
        shape = tuple(dim(s) for s in (shape or ()))
        g = gensym()
        c = T.get_ctx()
        c.push(cmp_le(ZERO, atom(g))); c.push(cmp_lt(atom(g), expr(n)))
        try:
            for r in rows:
                if r is None: fa.append('None'); continue
                self._flat(self.I.getitem(self.I.conc(r), atom(g)), fa)
            for a in args: self._flat(a, fa)
            body = T.app(name, *(list(IX[1:len(shape) + 1]) + fa))
        finally: c.pop(); c.pop()
        body = subst(body, {g.key: IX[0]})
        return Arr.new((n,) + shape, body)
    # -------------------------------------------------- obligations
    def _num(self, label, a, b):
        a = toarr(a); b = toarr(b)
        if a.ndim != b.ndim or not all(A.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
            if all(is1(x) for x in a.shape) and all(is1(x) for x in b.shape):
                a = Arr.new((), a.scalar()); b = Arr.new((), b.scalar())
            else:
                self.rec.add(label + ' (shape)', False, 'shape %s, expected %s' % (a.shape, b.shape)); return
        n = A.in_range(a.shape)
        st = T.get_ctx().stats
        z0 = st['z3']
        try:
            d = T.renorm(a.body) - T.renorm(b.body)
            ones = dict(('#%d' % k, ZERO) for k, x in enumerate(a.shape) if is1(x))
            if ones: d = subst(d, ones)
            try: ok, res = T.prove_zero(T.renorm(d))
            except RecursionError: ok, res = False, d
            if not ok and A.mentions_selection(res):
                try:
                    res = T.renorm(d)
                    for _ in range(4):
                        ok, res = T.prove_zero(T.renorm(A.unselect(res)))
                        if ok or not A.mentions_selection(res): break
                except RecursionError: ok, res = False, d
            if not ok and len(res.t) <= 40:
                ok = T.get_ctx().decide(T.cmp_eq(T.clear_pos_denoms(res), ZERO)) is True
        finally: A.popn(n)
        self.rec.add(label, ok, 'residual %s' % T.show(res)[:1500] if not ok else '', 'normaliser' if st['z3'] == z0 else 'normaliser+z3')
    def eq(self, label, a, b):
        a = self.I.conc(a); b = self.I.conc(b)
        if a is b: self.rec.add(label, True, '', 'identity'); return
        if isinstance(a, N.ObjArr): a = list(a.items)
        if isinstance(b, N.ObjArr): b = list(b.items)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)):
            if len(a) != len(b): self.rec.add(label, False, 'length %d, expected %d' % (len(a), len(b))); return
            if not a: self.rec.add(label, True, '', 'identity')
            for k, (x, y) in enumerate(zip(a, b)): self.eq('%s[%d]' % (label, k), x, y)
            return
        if a is None or b is None or isinstance(a, (str, I.Class, I.Obj)) or isinstance(b, (str, I.Class, I.Obj)):
            ok = (a is b) or (isinstance(a, str) and isinstance(b, str) and a == b)
            self.rec.add(label, ok, '%r is not %r' % (a, b), 'identity'); return
        if isinstance(a, I.SymRange): a = N.asarray(a)
        if isinstance(b, I.SymRange): b = N.asarray(b)
        if isinstance(a, (bool, Cond)): a = T.ind(a) if isinstance(a, Cond) else int(a)
        if isinstance(b, (bool, Cond)): b = T.ind(b) if isinstance(b, Cond) else int(b)
        if isinstance(a, A.MaskSel): a = A.materialise(a)
        if isinstance(b, A.MaskSel): b = A.materialise(b)
        self._num(label, a, b)
    approx = eq
    def le(self, label, a, b):
        sh = A.bshape(toarr(a).shape, toarr(b).shape)
        n = A.in_range(sh)
        try:
            x = A.bbody(toarr(a), sh); y = A.bbody(toarr(b), sh)
            self._le(label, T.renorm(x), T.renorm(y))
        finally: A.popn(n)
    def _le(self, label, x, y):
        ctx = T.get_ctx()
        k = 0
        for e in (x, y):
            for _, (c, m) in list(e.t.items()):
                for a, q in m.factors:
                    if a.kind != 'maxr': continue
                    for nm in sorted(x.fv | y.fv):       # instances of: element <= maximum
                        i = T.sym(nm, True)
                        if ctx.decide(T.cand(cmp_le(ZERO, i), cmp_lt(i, a.args[0]))) is True:
                            ctx.push(cmp_le(T.renorm(a.args[1](i)), atom(a))); k += 1
        r = ctx.decide(cmp_le(x, y))
        A.popn(k)
        if r is not True and T.nonneg(y - x): r = True
        if r is not True:
            ok, _ = T.prove_zero(x - y)
            r = ok
        self.rec.add(label, r is True, 'cannot prove %s <= %s' % (T.show(x)[:300], T.show(y)[:300]), 'z3')
    def check(self, label, c):
        c = self.I.tcond(c)
        if isinstance(c, Cond):
            r = T.get_ctx().decide(c)
            self.rec.add(label, r is True, 'cannot prove %r' % (c,), 'z3')
        else: self.rec.add(label, bool(c), 'false', 'evaluation')
    def fail(self, label): self.rec.add(label, False, 'reached')
    def same(self, label, a, b): self.rec.add(label, self.I.conc(a) is self.I.conc(b), 'different objects', 'identity')
    def snap(self, x):
        memo = {}
        return I.deep_copy(x, memo)
    def unchanged(self, label, x, s):
        probs = []
        self._cmp(label, x, s, probs, set())
        bad = [p for p in probs if not p[1]]
        if bad: self.rec.add(label, False, '; '.join(p[0] + ': ' + p[2] for p in bad)[:1500])
        else: self.rec.add(label, True, '', 'normaliser')
    def _cmp(self, label, x, s, out, seen):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, I.Obj):
            if not isinstance(s, I.Obj): out.append((label, False, 'type')); return
            for k in sorted(set(x.a) | set(s.a)):
                if k not in x.a or k not in s.a: out.append((label + '.' + k, False, 'attribute set changed')); continue
                self._cmp(label + '.' + k, x.a[k], s.a[k], out, seen)
        elif isinstance(x, (list, tuple)):
            if not isinstance(s, (list, tuple)) or len(x) != len(s): out.append((label, False, 'length')); return
            for k, (a, b) in enumerate(zip(x, s)): self._cmp('%s[%d]' % (label, k), a, b, out, seen)
        elif isinstance(x, N.ObjArr): self._cmp(label, x.items, s.items, out, seen)
        elif isinstance(x, dict):
            if set(x) != set(s): out.append((label, False, 'keys')); return
            for k in x: self._cmp('%s[%s]' % (label, k), x[k], s[k], out, seen)
        elif isinstance(x, (Arr, Expr, int)) and not isinstance(x, bool):
            r2 = Rec()
            v2 = V.__new__(V); v2.I = self.I; v2.rec = r2
            v2._num(label, x, s)
            for o in r2.obl:
                out.append((label, o['ok'], o['detail']))
        elif isinstance(x, (str, bool, type(None))): out.append((label, x == s, 'changed'))
        elif isinstance(x, Seq):
            if not isinstance(s, Seq): out.append((label, False, 'type')); return
            if getattr(s, 'lazy', False): raise Unsupported('comparison of symbolic sequences')
            self._cmp(label, A.seq_to_arr(x), A.seq_to_arr(s), out, seen)
        else: out.append((label, True, ''))
    def _bufs(self, x, acc, seen):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, Arr): acc[x.buf.id] = x
        elif isinstance(x, I.Obj):
            if x.cls.name in self.shared_ok: return
            for v in x.a.values(): self._bufs(v, acc, seen)
        elif isinstance(x, (list, tuple)):
            for v in x: self._bufs(v, acc, seen)
        elif isinstance(x, N.ObjArr):
            for v in x.items: self._bufs(v, acc, seen)
        elif isinstance(x, dict):
            for v in x.values(): self._bufs(v, acc, seen)
        elif isinstance(x, Seq) and getattr(x, 'backing', None) is not None: acc[x.backing.buf.id] = x.backing
        elif isinstance(x, Seq): self._bufs(x.fn(atom(T.gensym())), acc, seen)
    shared_ok = ()
    def disjoint(self, label, a, b):
        x = {}; y = {}
        self._bufs(a, x, set()); self._bufs(b, y, set())
        self.rec.add(label, not (set(x) & set(y)), 'shared storage', 'heap')
    def raises(self, fn, *classes):
        try: self.I.call(fn, [], {})
        except PyExc as e: return e.cls in classes or not classes
        return False
    # -------------------------------------------------- distributions
    def derivative(self, f):
        """(f(0), f'(0)) of a function of one real number"""
        e = T.sym('eps!%d' % next(N._cnt))
        r = toarr(self.I.call(f, [e], {}))
        (k, _), = [(a.key, 0) for _, (c, m) in e.t.items() for a, x in m.factors]
        n = A.in_range(r.shape)
        try:
            b = T.renorm(r.body)
            d = T.renorm(subst(T.deriv(b, k), {k: ZERO})); b = T.renorm(subst(b, {k: ZERO}))
        finally: A.popn(n)
        return (Arr.new(r.shape, b), Arr.new(r.shape, d))
    def moments(self, f):
        r0 = len(N.Rand.log)
        x = toarr(self.I.call(f, [], {}))
        names = [n for n, s in N.Rand.log[r0:]]
        if any(not n.startswith('norm') for n in names): raise Unsupported('non-Gaussian draw')
        mean = I.map_apps(x.body, dict((n, lambda args: ZERO) for n in names))
        n = A.in_range(x.shape)
        try: dev = T.renorm(x.body - mean)
        finally: A.popn(n)
        ns = set(names)
        for k, (c, m) in dev.t.items():
            cnt = 0
            for a, e in m.factors:
                if a.kind == 'app' and a.args[0] in ns:
                    if e != 1: raise Unsupported('not affine in the noise')
                    cnt += 1
                elif I.mentions(atom(a), ns): raise Unsupported('not affine in the noise')
            if cnt != 1: raise Unsupported('not affine in the noise')
        k = x.ndim
        d2 = subst(dev, dict(('#%d' % q, IX[q + k]) for q in range(k)))
        nn = A.in_range(x.shape + x.shape)
        try: cov = self.expect2(dev * d2, ns)
        finally: A.popn(nn)
        return (Arr.new(x.shape, mean), Arr.new(x.shape + x.shape, cov))
    def expect2(self, e, ns):
        acc = ZERO
        for k, (c, m) in e.t.items():
            b, f = T._freshen(m)
            nz = [(a, q) for a, q in f if a.kind == 'app' and a.args[0] in ns]
            keep = [(a, q) for a, q in f if not (a.kind == 'app' and a.args[0] in ns)]
            if len(nz) == 1 and nz[0][1] == 2: r = ONE
            elif len(nz) == 2:
                if nz[0][0].args[0] != nz[1][0].args[0]: continue
                r = ONE
                for p, q in zip(nz[0][0].args[1:], nz[1][0].args[1:]): r = r * T.ind(cmp_eq(p, q))
            else: raise Unsupported('noise product')
            acc = acc + T._wrap(c, b, keep, r)
        return acc
    def uniforms(self, f):
        """(result, list of uniform draws) of a call"""
        r0 = len(N.Rand.log)
        x = self.I.call(f, [], {})
        out = I.PyList()
        for nm, s in N.Rand.log[r0:]:
            if nm.split('!')[0] in ('fidx', 'fresh', 'samp'): continue       # contract-level abstractions, not draws
            if not nm.startswith('unif'): raise Unsupported('unexpected random draw')
            out.append(Arr.new(s, T.app(nm, *IX[:len(s)])))
        return (x, out)
    def _rn(self, x):
        n = A.in_range(x.shape)
        try: b = T.renorm(x.body)
        finally: A.popn(n)
        b = subst(b, dict(('#%d' % k, ZERO) for k, q in enumerate(x.shape) if is1(q)))
        return Arr.new(x.shape, b, x.dtype)
    def categorical(self, label, f, probs):
        """obligation: f() draws index j for row m with probability probs[m,j] (inverse-CDF form: the index equals
        the number of cumulative sums below a fresh uniform draw)"""
        r0 = len(N.Rand.log)
        x = self._rn(toarr(self.I.call(f, [], {})))
        draws = N.Rand.log[r0:]
        p = toarr(probs)
        if any(not n.startswith('unif') for n, s in draws): raise Unsupported('non-uniform draw')
        draws = [d for d in draws if I.mentions(x.body, [d[0]])]
        if len(draws) != 1: raise Unsupported('several draws')
        nm, s = draws[0]
        M, n = p.shape
        g = gensym(); h = gensym()
        cdf = T.Sum(h, atom(g) + 1, p.at(IX[0], atom(h)))
        # the application as it occurs
        apps = set()
        def find(e):
            for k, (c, m) in e.t.items():
                for a, q in m.factors: fa(a)
        def fa(a):
            if a.kind == 'app' and a.args[0] == nm: apps.add(a)
            for y in a.args:
                if isinstance(y, Expr): find(y)
                elif isinstance(y, Lam): find(y.body)
                elif isinstance(y, Cond): fc(y)
        def fc(c):
            for y in c.args:
                if isinstance(y, Expr): find(y)
                else: fc(y)
        find(x.body)
        if len(apps) != 1: raise Unsupported('draw used in several places')
        u = atom(list(apps)[0])
        if x.ndim == 0: u = u; xb = x.body
        # distinct rows must use distinct draws
        if x.ndim == 1 and not is1(x.shape[0]):
            self.rec.add(label + ': one independent draw per row', '#0' in u.fv, 'draw shared between rows', 'normaliser')
        best = None
        for strict in (True, False):
            c = cmp_lt(cdf, u) if strict else cmp_le(cdf, u)
            g1 = gensym()
            spec = T.Sum(g, expr(n), T.ind(c))
            n_ = A.in_range(x.shape)
            try: ok, res = T.prove_zero(T.renorm(x.body) - T.renorm(spec))
            finally: A.popn(n_)
            if ok: break
            best = best or res
        self.rec.add(label, ok, 'residual %s' % T.show(best)[:1500] if best is not None else '', 'normaliser')
    def conditional(self, label, f):
        """f() -> (indices (M,), probs: row j -> probabilities (n,)): row j is drawn, independently of the other rows and given
        everything its probabilities depend on, from probs(j) (inverse-CDF form)"""
        r0 = len(N.Rand.log)
        x, pr = self.I.call(f, [], {})
        x = self._rn(toarr(x))
        j = self.index('row!%d' % next(N._cnt), x.shape[0])
        p = toarr(self.I.call(pr, [j], {}))
        n = p.shape[-1]
        if p.ndim == 2: p = A.getitem(p, 0)
        jn = list(j.fv)[0]
        pb = subst(p.body, {})
        app = x.body if is1(x.shape[0]) else subst(x.body, {'#0': j})
        app = T.renorm(app)
        sm = self._sampled(app)
        if sm is not None:
            w, nd, args = sm
            self.rec.add(label + ': one independent draw per row', is1(x.shape[0]) or (is1(nd) and any(jn in q.fv for q in args)), 'rows share one systematic sample', 'normaliser')
            self._num(label + ' (probabilities given to sample)', w, p)
            self._num(label + ' (probabilities sum to one)', N.sum_(p), 1)
            return
        draws = [d for d in N.Rand.log[r0:] if d[0].startswith('unif') and I.mentions(app, [d[0]]) and not I.mentions(p.body, [d[0]])]
        if len(draws) != 1: raise Unsupported('%d draws decide the row' % len(draws))
        u = self._theapp(app, draws[0][0])
        if not is1(x.shape[0]):
            self.rec.add(label + ': one independent draw per row', jn in u.fv, 'draw shared between rows', 'normaliser')
        g = gensym(); h = gensym()
        cdf = T.Sum(h, atom(g) + 1, p.at(atom(h)))
        best = None
        for strict in (True, False):
            c = cmp_lt(cdf, u) if strict else cmp_le(cdf, u)
            ok, res = T.prove_zero(app - T.renorm(T.Sum(g, expr(n), T.ind(c))))
            if ok: break
            best = best or res
        self.rec.add(label + ' (inverse cdf)', ok, 'residual %s' % T.show(best)[:1500] if not ok else '', 'normaliser')
        self._num(label + ' (probabilities sum to one)', N.sum_(p), 1)
    def _theapp(self, e, nm):
        """the only application of draw nm occurring in e"""
        apps = set()
        def find(e):
            for k, (c, m) in e.t.items():
                for a, q in m.factors: fa(a)
        def fa(a):
            if a.kind == 'app' and a.args[0] == nm: apps.add(a)
            for y in a.args:
                if isinstance(y, Expr): find(y)
                elif isinstance(y, Lam): find(y.body)
                elif isinstance(y, Cond): fc(y)
        def fc(c):
            for y in c.args:
                if isinstance(y, Expr): find(y)
                else: fc(y)
        find(e)
        if len(apps) != 1: raise Unsupported('draw used in several places')
        return atom(list(apps)[0])
    def lowvar(self, label, f, probs, n, pick=None):
        """obligation: f() draws n indices by inversion of the cdf of probs at (k+U)/n with one uniform draw U; together with
        the lemmas below (discharged by z3) this gives valid, non-decreasing indices selected n*p +- <1 times"""
        r0 = len(N.Rand.log)
        out = self.I.call(f, [], {})
        x = self._rn(toarr(out if pick is None else self.I.call(pick, [out], {})))
        sm = self._sampled(x.body)
        if sm is not None:
            w, nd, args = sm
            p = toarr(probs)
            if p.ndim == 2: p = A.getitem(p, 0)
            self._num(label + ' (one index per draw)', nd, n)
            self.rec.add(label + ' (in order)', is1(x.shape[0]) or args[-1] is IX[0] or T.prove_zero(args[-1] - IX[0])[0], 'reordered', 'normaliser')
            self._num(label + ' (probabilities given to sample)', w, p)
            self._num(label + ' (probabilities sum to one)', N.sum_(p), 1)
            return out
        draws = [d for d in N.Rand.log[r0:] if d[0].startswith('unif') and I.mentions(x.body, [d[0]])]
        if len(draws) != 1: raise Unsupported('%d draws decide the indices' % len(draws))
        nm, s = draws[0]
        if not all(is1(q) for q in s): raise Unsupported('vector of draws')
        p = toarr(probs)
        if p.ndim == 2: p = A.getitem(p, 0)
        self._num(label + ' (one index per draw)', x.shape[0], n)
        U = T.app(nm, *[ZERO] * len(s))
        g = gensym(); h = gensym()
        cdf = T.Sum(h, atom(g) + 1, p.at(atom(h)))
        spec = T.Sum(g, expr(p.shape[0]), T.ind(cmp_lt(cdf, (IX[0] + U) / expr(n))))
        k = A.in_range(x.shape)
        try: ok, res = T.prove_zero(T.renorm(x.body) - T.renorm(spec))
        finally: A.popn(k)
        self.rec.add(label + ' (inverse cdf at equidistant points)', ok, 'residual %s' % T.show(res)[:1500] if not ok else '', 'normaliser')
        self._num(label + ' (probabilities sum to one)', N.sum_(p), 1)
        for nm_, ok in smt.lowvar_lemmas(): self.rec.add('lemma: ' + nm_, ok, 'not proved', 'z3')
        return out
    def replace(self, qual, fn):
        """verify callers against a contract of `qual`: calls are answered by fn"""
        def h(it, args, kw): return it.call(fn, args, kw)
        self.I.intercept[qual] = h
    def cut(self, qual, spec):
        """the outermost loop of function `qual` that calls spec.calls (or its only loop) is treated inductively: spec.entry(locals) checks
        the invariant before the loop, spec.havoc(locals) gives an arbitrary state satisfying it, spec.back(locals) checks it after
        an arbitrary iteration, spec.modifies(locals) lists the objects an iteration may change. qual + '#inner': the loop inside it"""
        self.I.cuts[qual] = spec
    def unsupported(self, why): raise Unsupported(why)
    def soft_selections(self):
        """a statement about elements selected by a mask that cannot be decided is outside the subset (bounded stand-in), not a violation:
        the same selection can be written in ways whose equality is not recognised"""
        self.rec.soft = True
    def patch(self, cls, name, fn):
        q = '%s.%s' % (getattr(cls, 'name', ''), name)
        if q in ('pyparticleest.smoother.bsi_rs', 'pyparticleest.smoother.bsi_rsas', 'pyparticleest.smoother.bsi_mcmc'): self.replace(q, fn)
        else: cls.d[name] = fn
    def asidx(self, x):
        x = self._rn(toarr(x)); return Arr.new(x.shape, x.body, 'i')
    def havoc(self, name, *shape): return self.arr('%s!%d' % (name, next(N._cnt)), *shape)

def fork_hook(v):
    def hook(c):
        if c.kind in ('eq', 'ne', 'le', 'lt') and len(c.fv) == 1:
            n = list(c.fv)[0]
            if n in v.dims and n not in v.dimsub:
                ctx = T.get_ctx()
                d = v.dims[n]
                for k in range(0, 6):
                    e = cmp_eq(d, expr(k))
                    for cc in (c, T.cnot(c)):
                        if ctx.unsat((e,)): continue
                        ctx.push(cc)
                        try: r = ctx.decide(e)
                        finally: ctx.pop()
                        if r is True: raise DimFork(n, k)
        return None
    return hook

SPLIT_DEPTH = 2

class NotMine(Exception):
    """the case belongs to another worker (cases are split between workers by their first choices)"""

class Deadline(BaseException):
    """the time budget ran out in the middle of a path"""

def run_contract(root, src, modname, fname, overrides, budget=60.0, maxpaths=400, part=(0, 1), deadline=None):
    """-> dict(obligations=[...], unsupported=[...], paths, funcs, stats)"""
    t0 = time.time()
    end = min(t0 + 1.3 * budget + 10, deadline or t0 + 1e6)      # hard limit, enforced inside a path
    budget = min(budget, end - t0)
    def stop(*a): raise Deadline()
    import signal
    old = signal.signal(signal.SIGALRM, stop)
    try: return run_cases(root, src, modname, fname, overrides, t0, budget, maxpaths, part, end)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)

def run_cases(root, src, modname, fname, overrides, t0, budget, maxpaths, part, end):
    import signal
    final = dict(obligations=[], unsupported=[], paths=0, funcs={}, z3=0, z3_time=0.0, loops=0, infeasible=0)
    todo = [(dict(), [])]        # dim configurations
    while todo:
        dimsub, dimne = todo.pop()
        res = dict(obligations=[], unsupported=[], paths=0)
        paths = [[]]
        try:
            while paths:
                pre = paths.pop()
                if time.time() - t0 > budget or res['paths'] > maxpaths:
                    res['unsupported'].append(dict(case='', reason='time budget exhausted after %d paths' % res['paths'])); break
                try:
                    signal.setitimer(signal.ITIMER_REAL, max(0.01, end - time.time()))
                    alts = run_path(root, src, modname, fname, overrides, pre, dimsub, dimne, res, final, part)
                    signal.setitimer(signal.ITIMER_REAL, 0)
                except Deadline:
                    res['unsupported'].append(dict(case='', reason='time budget exhausted in path %d' % (res['paths'] + 1))); todo = []; break
                paths.extend(alts)
        except DimFork as f:
            todo.append((dict(dimsub, **{f.name: f.k}), list(dimne)))
            todo.append((dict(dimsub), dimne + [(f.name, f.k)]))
            continue
        final['obligations'] += res['obligations']; final['unsupported'] += res['unsupported']; final['paths'] += res['paths']
    final['time'] = time.time() - t0
    return final

def run_path(root, src, modname, fname, overrides, pre, dimsub, dimne, res, final, part=(0, 1)):
    T.set_ctx(T.Context())
    T.CTX = T.get_ctx()
    T.SYMMETRIC.clear()
    A.HEAP.log[:] = []
    N.Rand.log = []; N.Rand.loop = []
    ov = dict(overrides); ov.update(SHARED); ov[modname] = src
    it = I.Interp(root, overrides=ov)
    it.path = I.Path(pre)
    rec = Rec()
    A.OBS = rec
    v = V(it, rec, dimsub)
    v.part = part
    base = ' '.join('%s=%s' % x for x in sorted(dimsub.items())) + ''.join(' %s!=%s' % x for x in dimne)
    it.fork_hook = fork_hook(v)
    it.branch = v.choose
    ctx = T.get_ctx()
    for n, k in dimne:
        d = sym(n, True)
        ctx.push(T.cmp_ne(d, expr(k)))
    outcome = None
    try:
        m = it.module(modname)
        f = m.d[fname]
        it.call(f, [I.Stub('v', v.table)], {})
        left = [k for k, x in it.cuts.items() if x is not True and not k.endswith('#inner')]
        if left: raise Unsupported('loop contract: no such loop in %s' % left[0])
    except DimFork: raise
    except NotMine: return it.path.alts
    except Assume: outcome = 'skip'
    except Unsupported as e:
        outcome = 'unsupported'
        res['unsupported'].append(dict(case=(base + ' ' + rec.case).strip(), reason='%s (at %s)' % (e, getattr(it, 'line', None))))
    except PyExc as e:
        why = 'raises %s: %s (at %s)' % (e.cls, e.msg, getattr(it, 'line', None))
        if rec.undecided(False, why):
            outcome = 'unsupported'; res['unsupported'].append(dict(case=rec.case, reason='undecided statement about selected elements: ' + why[:200]))
        else: rec.add('no exception', False, why)
    except I.Ret: pass
    except I.Done: pass
    except I.Infeasible: outcome = 'skip'
    except RecursionError:
        outcome = 'unsupported'; res['unsupported'].append(dict(case=rec.case, reason='recursion'))
    except (AssertionError, KeyError, TypeError, AttributeError, IndexError, ValueError, ZeroDivisionError) as e:
        outcome = 'unsupported'
        tb = traceback.extract_tb(e.__traceback__)[-1]
        res['unsupported'].append(dict(case=rec.case, reason='engine: %s: %s at %s:%s (line %s)' % (type(e).__name__, e, os.path.basename(tb[0]), tb[1], getattr(it, 'line', None))))
    if len(v.choices) < SPLIT_DEPTH and not v.mine(): return it.path.alts
    # vacuity: the assumptions of the path must be satisfiable
    feasible = smt.feasible(ctx)
    for k, n in it.funcs_entered.items(): final['funcs'][k] = final['funcs'].get(k, 0) + n
    final['loops'] += it.loops_summarised
    final['z3'] += ctx.stats['z3']; final['z3_time'] += ctx.stats['z3_time']
    if not feasible:
        final['infeasible'] += 1
        if outcome == 'unsupported': res['unsupported'].pop()
    elif outcome != 'skip':
        res['paths'] += 1
        for o in rec.obl:
            o['case'] = (base + ' ' + o['case'] + (' path=' + ' & '.join(repr(c)[:60] for c in it.path.conds) if it.path.conds else '')).strip()
        if outcome == 'unsupported':
            # obligations established before the unsupported construct still count
            pass
        res['obligations'] += rec.obl
    return it.path.alts
