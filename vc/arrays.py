"""Symbolic arrays: buffers of unbounded symbolic shape, views, broadcasting, writes.

An array value is a view (shape, index map) of a Buf whose content is an Expr over the index
placeholders #0,#1,...  Writes through a view update the buffer, so aliasing is modelled.
"""
from . import terms as T
from .terms import Expr, Cond, Lam, Unsupported, expr, ZERO, ONE, cmp_le, cmp_lt, cmp_eq, ite, ind, sym, atom, gensym, subst
import itertools

_ids = itertools.count()

class PyExc(Exception):
    """an exception raised by the verified program"""
    def __init__(self, cls, msg='', value=None):
        Exception.__init__(self, '%s: %s' % (cls, msg))
        self.cls = cls; self.msg = msg; self.value = value

IX = [sym('#%d' % k, True) for k in range(10)]

class Journal(object):
    def __init__(self):
        self.log = []
    def rec(self, obj, get, undo):
        self.log.append((obj, get, undo))

class Heap(object):
    """write log used to discover and roll back side effects"""
    def __init__(self):
        self.log = []
    def mark(self): return len(self.log)
    def rollback(self, m):
        while len(self.log) > m:
            obj, field, old = self.log.pop()
            obj._restore(field, old)
HEAP = Heap()

class Buf(object):
    __slots__ = ('shape', 'body', 'dtype', 'id', 'name', 'ro')
    def __init__(self, shape, body, dtype='f', name=None):
        self.shape = tuple(shape); self.body = body; self.dtype = dtype
        self.id = next(_ids); self.name = name; self.ro = False
    def write(self, body):
        HEAP.log.append((self, 'body', self.body))
        self.body = body
    def _restore(self, field, old):
        setattr(self, field, old)
    def _get(self, field): return getattr(self, field)

def dim(d):
    """normalise a dimension: python int when constant"""
    if isinstance(d, Expr):
        if d.isconst():
            v = d.constval()
            if v.denominator != 1: raise PyExc('TypeError', 'non-integer dimension')
            return int(v)
        return d
    return int(d)

def same_dim(a, b):
    a = expr(a); b = expr(b)
    if a.key == b.key: return True
    if a.isconst() and b.isconst(): return False
    r = T.get_ctx().decide(cmp_eq(a, b))
    return r is True

def is1(d):
    return isinstance(d, int) and d == 1 or isinstance(d, Expr) and d.isconst() and d.constval() == 1

class Arr(object):
    def __init__(self, buf, shape, idx):
        self.buf = buf; self.shape = tuple(dim(s) for s in shape); self.idx = tuple(idx)
    # -- construction
    @staticmethod
    def new(shape, body, dtype='f', name=None):
        shape = tuple(dim(s) for s in shape)
        return Arr(Buf(shape, body, dtype, name), shape, IX[:len(shape)])
    def _get(self, f): return (self.buf, self.shape, self.idx)
    def _restore(self, f, old): self.buf, self.shape, self.idx = old
    @property
    def ndim(self): return len(self.shape)
    @property
    def dtype(self): return self.buf.dtype
    @property
    def body(self):
        b = self.buf.body
        mp = {}
        for k, e in enumerate(self.idx):
            if e.key != IX[k].key: mp['#%d' % k] = e
        return subst(b, mp) if mp else b
    def at(self, *ix):
        if len(ix) != self.ndim: raise AssertionError('at')
        return subst(self.body, dict(('#%d' % k, expr(i)) for k, i in enumerate(ix)))
    def copy(self, dtype=None):
        return Arr.new(self.shape, self.body, dtype or self.dtype)
    def view(self, shape, newidx):
        """view whose own index map is composed: newidx: exprs of this array's indices in terms of new placeholders"""
        mp = dict(('#%d' % k, e) for k, e in enumerate(newidx))
        return Arr(self.buf, shape, tuple(subst(e, mp) for e in self.idx))
    @property
    def T(self):
        n = self.ndim
        return self.view(self.shape[::-1], [IX[n - 1 - k] for k in range(n)])
    @property
    def size(self):
        r = ONE
        for s in self.shape: r = r * expr(s)
        return dim(r)
    def scalar(self):
        """the single element of a size-1 array"""
        for s in self.shape:
            if not is1(s):
                raise PyExc('TypeError', 'only size-1 arrays can be converted to scalars')
        return self.at(*[ZERO] * self.ndim)
    def __repr__(self):
        return 'Arr%s %s' % (tuple(self.shape), T.show(self.body)[:200])

class MaskSel(object):
    """base[mask] kept symbolic"""
    def __init__(self, mask, body, shape, dtype='f', mdim=1):
        self.mask = mask; self.body = body; self.shape = shape; self.dtype = dtype; self.mdim = mdim

# ---------------------------------------------------------------- selections
# For a mask m over [0,n):  cnt = number of selected positions, enum(q) = q-th selected position, rank(p) = number of selected
# positions before p.  Facts used: 0 <= cnt <= n; 0 <= enum(q) < n; rank(enum(q)) = q; m(p) -> enum(rank(p)) = p, 0 <= rank(p) < cnt;
# m(p) -> cnt >= 1.
SEL = {}        # key -> (cnt name, enum name, rank name, mask body, n)
SELN = {}       # name -> entry
def selection(mask, n):
    n = dim(n)
    k = in_range((n,))
    try: b = T.renorm(mask)
    finally: popn(k)
    for v in b.fv:
        if v.startswith('%') or (v.startswith('#') and v != '#0'): raise Unsupported('selection inside a loop')
    key = (b.key, expr(n).key)
    if key not in SEL:
        i = len(SEL)
        SEL[key] = e = ('cnt!%d' % i, 'enum!%d' % i, 'rank!%d' % i, b, n)
        SELN[e[1]] = SELN[e[2]] = SELN[e[0]] = e
        T.APP_RULES[e[2]] = (e[1], lambda args: args[0])
    e = SEL[key]
    c = T.get_ctx()
    cnt = T.sym(e[0], True)
    if e[0] not in c.flags:
        c.flags.setdefault(e[0], set()).add('nonneg')
        c.flags.setdefault(e[1], set()).add(('range', ZERO, expr(n)))
        c.flags.setdefault(e[2], set()).add(('range', ZERO, expr(n)))
        c.push(cmp_le(ZERO, cnt)); c.push(cmp_le(cnt, expr(n)))
        if isinstance(n, int) and n <= 4:
            tot = ZERO
            for k in range(n): tot = tot + T.ind(mask_cond(T.renorm(subst(b, {'#0': T.const(k)}))))
            c.push(cmp_eq(cnt, tot))
    return e
def none_selected(e, p):
    """instance at p of: cnt = 0 -> no position is selected"""
    n = in_range((e[4],)) if p is IX[0] else 0
    try: m = mask_cond(T.renorm(subst(e[3], {'#0': p})))
    finally: popn(n)
    return T.cor(T.cnot(T.cand(cmp_le(ZERO, p), cmp_lt(p, expr(e[4])))), T.cnot(m), T.cnot(cmp_eq(T.sym(e[0], True), ZERO)))
def materialise(x):
    """array of the selected elements, in order"""
    if x.mdim != 1: raise Unsupported('selection by a multi-dimensional mask')
    k = in_range((x.shape[0],))
    try: full = T.renorm(x.mask)
    finally: popn(k)
    if full.isconst() and full.constval() == 1: return Arr.new(x.shape, x.body, x.dtype)
    if full.isconst() and full.constval() == 0: return Arr.new((0,) + tuple(x.shape[1:]), ZERO, x.dtype)
    if isinstance(x.shape[0], int) and x.shape[0] <= 4:
        c = [T.get_ctx().decide(mask_cond(T.renorm(subst(full, {'#0': T.const(k)})))) for k in range(x.shape[0])]
        if None not in c:
            sel = [k for k in range(x.shape[0]) if c[k]]
            b = ZERO
            for q, k in enumerate(sel): b = b + T.ind(cmp_eq(IX[0], T.const(q))) * subst(x.body, {'#0': T.const(k)})
            if len(sel) == 1: b = subst(x.body, {'#0': T.const(sel[0])})
            return Arr.new((len(sel),) + tuple(x.shape[1:]), b, x.dtype)
    e = selection(x.mask, x.shape[0])
    en = T.app(e[1], IX[0], isint=True)
    return Arr.new((T.sym(e[0], True),) + tuple(x.shape[1:]), subst(x.body, {'#0': en}), x.dtype)
def mentions_selection(e): return any(x.startswith('cnt!') for x in e.fv)
def unselect(e):
    """sums over the selected positions as sums over all positions: SUM_{q<cnt} G(enum(q)) = SUM_{p<n} [m(p)] G(p)  (enum is a bijection
    of [0,cnt) and the selected positions)"""
    if not mentions_selection(e): return e
    acc = ZERO
    for k, (c, m) in e.t.items():
        b, f = T._freshen(m)
        b = list(b)
        res = T.ONE
        for a, x in f:
            if not any(y.startswith('cnt!') for y in a.fv): res = res * T.norm_mono(ONE_Q, [], [(a, x)]); continue
            res = res * T.powe(T.rebuild(a.kind, tuple(_unsel_arg(y) for y in a.args), a.isint) if a.kind != 'v' else atom(a), x)
        for v, n in reversed(b):
            a = T._as_atom(n)
            ent = SELN.get(a.args[0]) if a is not None and a.kind == 'v' else None
            r = unselect_binder(v, ent, res) if ent is not None else None
            res = r if r is not None else T.Sum(v, n, res)
        acc = acc + res.scale(c)
    return acc
def _unsel_arg(y):
    if isinstance(y, T.Expr): return unselect(y)
    if isinstance(y, T.Lam):
        gs = [T.gensym() for _ in range(y.n)]
        return T.Lam(gs, unselect(y(*[atom(g) for g in gs])))
    if isinstance(y, Cond) and y.kind in ('le', 'lt', 'eq', 'ne'): return T._normcmp(y.kind, unselect(y.args[0]))
    return y
def unselect_binder(v, ent, body):
    cnt, en, rank, mask, n = ent
    p = T.gensym()
    T.APP_RULES[en] = (rank, lambda args: args[0])
    try: r = subst(body, {v.key: T.app(rank, atom(p), isint=True)})
    finally: del T.APP_RULES[en]
    if rank in r.fv: return None
    ctx = T.get_ctx()
    ctx.push(cmp_le(ZERO, atom(p))); ctx.push(cmp_lt(atom(p), expr(n)))
    try: r = T.renorm(r * T.ind(mask_cond(T.renorm(subst(mask, {'#0': atom(p)})))))
    finally: ctx.pop(); ctx.pop()
    return T.Sum(p, n, r)
SUBSETS = {}    # name of an injective index sequence -> (membership name, position name, length)
def inverse_of(body, n, j):
    """(condition, position): body(position) = j, for an injective index array of length n; None when not recognised"""
    lr = T._lin_in(body, '#0')
    if lr is not None and lr[0] in (1, -1):
        p = (j - lr[1]).scale(1 / lr[0])
        return T.cand(cmp_le(ZERO, p), cmp_lt(p, expr(n))), p
    a = T._as_atom(body)
    if a is None or a.kind != 'app' or len(a.args) != 2: return None
    nm = a.args[0]
    if nm in SELN and SELN[nm][1] == nm:
        e = SELN[nm]
        c = T.cand(cmp_le(ZERO, j), cmp_lt(j, expr(e[4])))
        k = 0
        ctx = T.get_ctx(); ctx.push(c)
        try: c = T.cand(c, mask_cond(T.renorm(subst(e[3], {'#0': j}))))
        finally: ctx.pop()
        p = T.app(e[2], j, isint=True)
    elif nm in SUBSETS:
        mem, pos, ln = SUBSETS[nm]
        c = cmp_eq(T.app(mem, j, isint=True), ONE)
        p = T.app(pos, j, isint=True)
    else: return None
    r = inverse_of(a.args[1], n, p)
    if r is None: return None
    if a.args[1].key == IX[0].key: return c, p        # the inner range condition is implied
    return T.cand(c, r[0]), r[1]
def member(arr, j):
    r = inverse_of(T.renorm(arr.body), arr.shape[0], expr(j))
    if r is None: raise Unsupported('membership')
    return r[0]

class Seq(object):
    """sequence of symbolic length; elem: fn(index Expr)->value"""
    def __init__(self, n, fn):
        self.n = dim(n); self.fn = fn
    def __getitem__(self, i): return self.fn(expr(i))

def toarr(v):
    if isinstance(v, Arr): return v
    if isinstance(v, MaskSel): return materialise(v)
    if isinstance(v, (int, float, Expr, Cond, bool)) or hasattr(v, 'numerator'):
        dt = 'i' if isinstance(v, int) or isinstance(v, Expr) and v.t and T.is_int_expr(v) and False else 'f'
        if isinstance(v, (bool, Cond)): dt = 'b'
        return Arr.new((), expr(v), dt)
    if isinstance(v, (list, tuple)):
        return stack0([toarr(x) for x in v])
    if isinstance(v, Seq):
        return seq_to_arr(v)
    raise Unsupported('array of %r' % (type(v),))

def seq_to_arr(s):
    g = gensym()
    ctx = T.get_ctx()
    ctx.push(cmp_le(ZERO, atom(g))); ctx.push(cmp_lt(atom(g), expr(s.n)))
    try: e = s.fn(atom(g))
    finally: popn(2)
    if isinstance(e, (Arr, Expr, int, list, tuple, float)) or hasattr(e, 'numerator'):
        a = toarr(e)
        sh = (s.n,) + a.shape
        for d in a.shape:
            if isinstance(d, Expr) and g.key in d.fv: raise Unsupported('ragged sequence')
        b = subst(a.body, dict(('#%d' % k, IX[k + 1]) for k in range(a.ndim)))
        b = subst(b, {g.key: IX[0]})
        return Arr.new(sh, b, a.dtype)
    raise Unsupported('sequence to array')

def stack0(arrs):
    n = len(arrs)
    if n == 0: return Arr.new((0,), ZERO)
    sh = arrs[0].shape
    for a in arrs:
        if len(a.shape) != len(sh) or not all(same_dim(x, y) for x, y in zip(a.shape, sh)):
            raise PyExc('ValueError', 'inhomogeneous array')
    body = ZERO
    for k, a in enumerate(arrs):
        b = subst(a.body, dict(('#%d' % q, IX[q + 1]) for q in range(len(sh))))
        body = b if n == 1 else body + ind(cmp_eq(IX[0], expr(k))) * b
    dt = 'f'
    if all(a.dtype == 'i' for a in arrs): dt = 'i'
    elif all(a.dtype == 'b' for a in arrs): dt = 'b'
    return Arr.new((n,) + tuple(sh), body, dt)

# ---------------------------------------------------------------- broadcasting
def bshape(*shapes):
    n = max(len(s) for s in shapes)
    out = []
    for k in range(n):
        cur = 1
        for s in shapes:
            j = k - (n - len(s))
            if j < 0: continue
            d = s[j]
            if is1(d): continue
            if is1(cur): cur = d
            elif not same_dim(cur, d):
                raise PyExc('ValueError', 'operands could not be broadcast together with shapes %s' % (' '.join(map(str, shapes)),))
        out.append(cur)
    return tuple(out)

def bbody(a, shape):
    """body of a broadcast to shape"""
    off = len(shape) - a.ndim
    mp = {}
    for k in range(a.ndim):
        if is1(a.shape[k]) and not is1(shape[k + off]): mp['#%d' % k] = ZERO
        elif is1(a.shape[k]): mp['#%d' % k] = ZERO
        elif off: mp['#%d' % k] = IX[k + off]
    b = a.body
    return subst(b, mp) if mp else b

def in_range(shape):
    """push index-range assumptions for the placeholders; returns count"""
    c = T.get_ctx()
    k = 0
    for q, s in enumerate(shape):
        c.push(cmp_le(ZERO, IX[q])); c.push(cmp_lt(IX[q], expr(s)))
        k += 2
    return k

def popn(n):
    c = T.get_ctx()
    for _ in range(n): c.pop()

def rdt(*ds):
    if any(d == 'f' for d in ds): return 'f'
    if any(d == 'i' for d in ds): return 'i'
    return ds[0] if ds else 'f'

def ew(fn, *vals, **kw):
    """elementwise lift of fn over numbers/arrays"""
    if not any(isinstance(v, (Arr, list, tuple, Seq)) for v in vals):
        return fn(*[expr(v) for v in vals])
    arrs = [toarr(v) for v in vals]
    sh = bshape(*[a.shape for a in arrs])
    n = in_range(sh)
    try:
        body = fn(*[bbody(a, sh) for a in arrs])
    finally:
        popn(n)
    if isinstance(body, Cond): body = ind(body)
    return Arr.new(sh, body, kw.get('dtype') or rdt(*[a.dtype for a in arrs]))

# ---------------------------------------------------------------- indexing
class Newaxis(object): pass

def norm_index(i, n):
    """scalar index (int or Expr) against dimension n, with bounds obligation"""
    c = T.get_ctx()
    if isinstance(i, bool): raise Unsupported('boolean index')
    if isinstance(i, int):
        if i < 0:
            e = expr(n) + i
        else:
            e = expr(i)
    else:
        e = expr(i)
        r = c.decide(cmp_le(ZERO, e))
        if r is False:
            e = e + expr(n)
    ob = T.cand(cmp_le(ZERO, e), cmp_lt(e, expr(n)))
    require(ob, 'index %s within dimension %s' % (T.show(e), n), 'IndexError')
    return e

OBS = None    # obligation recorder set by the contract runner

def require(cond, msg, exc=None):
    c = T.get_ctx()
    r = c.decide(cond)
    if r is True:
        if OBS is not None: OBS.safety(msg, True)
        return
    if r is False and exc:
        raise PyExc(exc, msg)
    if OBS is not None:
        OBS.safety(msg, False, repr(cond))
        return
    raise Unsupported('unproved ' + msg)

def slice_bounds(s, n):
    """(lo, length, step) for slice object with dims"""
    n = expr(n)
    c = T.get_ctx()
    step = s.step
    if step is None: step = 1
    if isinstance(step, Expr):
        if not step.isconst(): raise Unsupported('symbolic slice step')
        step = int(step.constval())
    def nb(x, dflt):
        if x is None: return dflt
        if isinstance(x, int) and x < 0:
            e = n + x
            if c.decide(cmp_le(ZERO, e)) is True: return e
            if c.decide(cmp_lt(e, ZERO)) is True: return ZERO
            raise Unsupported('slice bound')
        e = expr(x)
        if c.decide(cmp_le(ZERO, e)) is not True:
            if c.decide(cmp_lt(e, ZERO)) is True:
                e = n + e
            else:
                raise Unsupported('slice bound sign')
        if c.decide(cmp_le(e, n)) is True: return e
        if c.decide(cmp_le(n, e)) is True: return n
        return T.ite(cmp_le(e, n), e, n)
    if step == 1:
        lo = nb(s.start, ZERO); hi = nb(s.stop, n)
        ln = hi - lo
        if c.decide(cmp_le(ZERO, ln)) is not True:
            if c.decide(cmp_le(ln, ZERO)) is True: ln = ZERO
            else: ln = T.ite(cmp_le(ZERO, ln), ln, ZERO)
        return lo, ln, 1
    if step == -1 and s.start is None and s.stop is None:
        return n - 1, n, -1
    if step > 1 and s.stop is None:
        lo = nb(s.start, ZERO)
        ln = n - lo
        return lo, T.mk_fn('fdiv', ln + (step - 1), expr(step), isint=True), step
    raise Unsupported('slice step')

def getitem(a, key):
    if not isinstance(key, tuple): key = (key,)
    # boolean mask
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype == 'b':
        m = key[0]
        if m.ndim == 0: raise Unsupported('0-d mask')
        if m.ndim > a.ndim or not all(same_dim(x, y) for x, y in zip(m.shape, a.shape)):
            raise PyExc('IndexError', 'boolean index did not match')
        return MaskSel(m.body, a.body, a.shape, a.dtype, m.ndim)
    key = tuple(materialise(k) if isinstance(k, MaskSel) else k for k in key)
    key = mask_axes(a, key)
    # ellipsis
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        cnt = sum(1 for k in key if k is not None and k is not Ellipsis)
        key = key[:p] + (slice(None),) * (a.ndim - cnt) + key[p + 1:]
    cnt = sum(1 for k in key if k is not None)
    if cnt > a.ndim: raise PyExc('IndexError', 'too many indices for array')
    key = key + (slice(None),) * (a.ndim - cnt)
    fancy = [k for k in key if isinstance(k, (Arr, list, Seq)) and not (isinstance(k, Arr) and k.ndim == 0)]
    if fancy: return getfancy(a, key)
    shape = []; newidx = []
    ax = 0
    for k in key:
        if k is None:
            shape.append(1); continue
        n = a.shape[ax]
        if isinstance(k, slice):
            lo, ln, st = slice_bounds(k, n)
            p = IX[len(shape)]
            newidx.append(lo + p if st == 1 else lo + p * st)
            shape.append(ln)
        else:
            if isinstance(k, Arr): k = k.scalar()
            newidx.append(norm_index(k, n))
        ax += 1
    v = a.view(shape, newidx)
    if v.ndim == 0: return v.at()
    return v

from fractions import Fraction
ONE_Q = Fraction(1)
def mask_axes(a, key):
    """1-d boolean index arrays among other indices, as arrays of the selected positions"""
    if not any(isinstance(k, Arr) and k.dtype == 'b' for k in key) or any(k is Ellipsis for k in key): return key
    out = []; ax = 0
    for k in key:
        if isinstance(k, Arr) and k.dtype == 'b':
            if k.ndim != 1: return key
            if ax >= a.ndim or not same_dim(k.shape[0], a.shape[ax]): raise PyExc('IndexError', 'boolean index did not match')
            k = materialise(MaskSel(k.body, IX[0], k.shape, 'i', 1))
        out.append(k)
        if k is not None: ax += 1
    return tuple(out)

def getfancy(a, key):
    shape = []; newidx = []
    fidx = []
    pos = None
    ax = 0
    # broadcast of the index arrays
    farrs = [toarr(k) for k in key if isinstance(k, (Arr, list, Seq)) and not (isinstance(k, Arr) and k.ndim == 0)]
    fsh = bshape(*[f.shape for f in farrs])
    if any(f.dtype == 'b' for f in farrs): raise Unsupported('mixed mask index')
    # adjacent fancy only; scalars count as fancy (numpy), result dims at first position if adjacent
    isf = []
    for k in key:
        isf.append(isinstance(k, (Arr, list, Seq)) and not (isinstance(k, Arr) and k.ndim == 0) or (k is not None and not isinstance(k, slice)))
    idxs = [i for i, f in enumerate(isf) if f]
    adjacent = idxs == list(range(idxs[0], idxs[-1] + 1))
    front = not adjacent
    out_shape = []
    plan = []
    if front:
        base = 0
        out_shape = list(fsh)
    ax = 0
    fpos = 0 if front else None
    for k, f in zip(key, isf):
        if k is None:
            out_shape.append(1); continue
        n = a.shape[ax]
        if f:
            if fpos is None:
                fpos = len(out_shape)
                out_shape += list(fsh)
            plan.append(('f', k, n))
        else:
            lo, ln, st = slice_bounds(k, n)
            plan.append(('s', lo, st, len(out_shape)))
            out_shape.append(ln)
        ax += 1
    for p in plan:
        if p[0] == 's':
            _, lo, st, q = p
            newidx.append(lo + IX[q] * st)
        else:
            _, k, n = p
            if isinstance(k, (Arr, list, Seq)):
                ka = toarr(k)
                kb = bbody(ka, fsh)
                kb = subst(kb, dict(('#%d' % q, IX[q + fpos]) for q in range(len(fsh))))
                nn = in_range(out_shape)
                try:
                    r = T.get_ctx().decide(cmp_le(ZERO, kb))
                    require(T.cand(cmp_le(ZERO, kb), cmp_lt(kb, expr(n))), 'fancy index %s within %s' % (T.show(kb)[:80], n), 'IndexError')
                finally:
                    popn(nn)
                newidx.append(kb)
            else:
                newidx.append(norm_index(k, n))
    v = a.view(out_shape, newidx)
    return Arr.new(v.shape, v.body, a.dtype)

def setitem(a, key, val):
    if not isinstance(key, tuple): key = (key,)
    if a.buf.ro: raise PyExc('ValueError', 'assignment destination is read-only')
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].dtype == 'b':
        m = key[0]
        if m.ndim > a.ndim or not all(same_dim(x, y) for x, y in zip(m.shape, a.shape)):
            raise PyExc('IndexError', 'boolean index did not match')
        c = mask_cond(m.body)
        if isinstance(val, MaskSel):
            if val.mask.key != m.body.key: return scatter(a, MaskSel(m.body, IX[0], m.shape, 'i', m.ndim), materialise(val))
            nb = val.body
            for x, y in zip(val.shape[m.ndim:], a.shape[m.ndim:]):
                if not same_dim(x, y): raise PyExc('ValueError', 'shape mismatch')
        else:
            va = toarr(val)
            if va.ndim != 0: raise Unsupported('array value for mask assignment')
            nb = va.body
        full = m.body * nb + (ONE - m.body) * a.body
        assign_view(a, full)
        return
    if len(key) == 1 and isinstance(key[0], MaskSel): return scatter(a, key[0], val)
    if any(isinstance(k, MaskSel) for k in key): raise Unsupported('mask selection index')
    if any(isinstance(k, (Arr, list, Seq)) and not (isinstance(k, Arr) and k.ndim == 0) for k in key):
        return setfancy(a, key, val)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        cnt = sum(1 for k in key if k is not None and k is not Ellipsis)
        key = key[:p] + (slice(None),) * (a.ndim - cnt) + key[p + 1:]
    # full-index scalar
    cnt = sum(1 for k in key if k is not None)
    if cnt > a.ndim: raise PyExc('IndexError', 'too many indices for array')
    key2 = key + (slice(None),) * (a.ndim - cnt)
    # keep as view even if 0-d
    shape = []; newidx = []; ax = 0
    for k in key2:
        if k is None:
            shape.append(1); continue
        n = a.shape[ax]
        if isinstance(k, slice):
            lo, ln, st = slice_bounds(k, n)
            newidx.append(lo + IX[len(shape)] * st); shape.append(ln)
        else:
            if isinstance(k, Arr): k = k.scalar()
            newidx.append(norm_index(k, n))
        ax += 1
    v = a.view(shape, newidx)
    assign(v, val)

def mask_cond(b):
    return cmp_eq(b, ONE)

def assign(v, val):
    if isinstance(val, MaskSel): val = materialise(val)
    va = toarr(val)
    # numpy drops leading 1-dims of the value; also a size-1 array may be assigned to a scalar cell
    while va.ndim > v.ndim:
        if not is1(va.shape[0]):
            raise PyExc('ValueError', 'could not broadcast input array from shape %s into shape %s' % (va.shape, v.shape))
        va = va.view(va.shape[1:], [ZERO] + IX[:va.ndim - 1])
    for k in range(va.ndim):
        d = v.shape[k + v.ndim - va.ndim]
        if not is1(va.shape[k]) and not same_dim(va.shape[k], d):
            raise PyExc('ValueError', 'could not broadcast input array from shape %s into shape %s' % (va.shape, v.shape))
    if v.dtype == 'i' and va.dtype == 'f':
        if not int_valued(va.body): raise Unsupported('float stored in integer array')
    assign_view(v, bbody(va, v.shape))

def int_valued(e):
    return T.is_int_expr(e)

def assign_view(v, body):
    """buffer cell (idx map of v) := body over v's placeholders"""
    buf = v.buf
    if buf.ro: raise PyExc('ValueError', 'assignment destination is read-only')
    conds = []
    mp = {}
    for k, e in enumerate(v.idx):
        bi = IX[k]
        phs = [q for q in range(10) if '#%d' % q in e.fv]
        if not phs:
            if not (is1(buf.shape[k])):
                conds.append(cmp_eq(bi, e))
            continue
        if len(phs) == 2:
            if not _split_axis(v, e, phs, bi, mp, conds): raise Unsupported('write through merged view')
            continue
        if len(phs) != 1: raise Unsupported('write through merged view')
        q = phs[0]
        lr = T._lin_in(e, '#%d' % q)
        if lr is None or lr[0] not in (1, -1): raise Unsupported('write through strided view')
        if '#%d' % q in mp: raise Unsupported('write through diagonal view')
        kq, r = lr
        val = (bi - r).scale(1 / kq)
        mp['#%d' % q] = val
        if not (kq == 1 and not r.t and same_dim(v.shape[q], buf.shape[k])) and \
           not (kq == -1 and same_dim(v.shape[q], buf.shape[k])):
            conds.append(cmp_le(ZERO, val)); conds.append(cmp_lt(val, expr(v.shape[q])))
    # dims of size 1 not in mp
    for q in range(v.ndim):
        if '#%d' % q not in mp:
            if not is1(v.shape[q]): raise Unsupported('write through broadcast view')
            mp['#%d' % q] = ZERO
    nb = subst(body, mp)
    c = T.cand(*conds)
    if c.kind == 'T':
        new = nb
    else:
        n = in_range(buf.shape)
        try:
            new = ite(c, nb, buf.body)
        finally:
            popn(n)
    buf.write(new)

def _split_axis(v, e, phs, bi, mp, conds):
    """axis seen as two (reshape): e = r + w * #p + #q with w the length of axis q"""
    for q, p in (phs, phs[::-1]):
        lq = T._lin_in(e, '#%d' % q)
        if lq is None or lq[0] != 1: continue
        w = expr(v.shape[q])
        r = lq[1] - w * IX[p]
        if '#%d' % p in r.fv or '#%d' % q in r.fv or '#%d' % p in mp or '#%d' % q in mp: continue
        conds.append(cmp_le(r, bi)); conds.append(cmp_lt(bi, r + w * expr(v.shape[p])))
        n = len(conds)
        k = 0
        for c in conds[-2:]: T.get_ctx().push(c); k += 1
        try:
            mp['#%d' % p] = T.mk_fn('fdiv', bi - r, w, isint=True)
            mp['#%d' % q] = T.mk_fn('mod', bi - r, w)
        finally: popn(k)
        return True
    return False

def setfancy(a, key, val):
    key = key + (slice(None),) * (a.ndim - len(key))
    if not isinstance(key[0], (Arr, list, Seq)) or any(not isinstance(k, slice) or k != slice(None) for k in key[1:]):
        # leading scalar then fancy etc.
        raise Unsupported('fancy assignment')
    ix = toarr(key[0])
    if ix.ndim != 1: raise Unsupported('fancy assignment with nd index')
    b = ix.body
    lr = T._lin_in(b, '#0')
    if lr is not None and lr[0] == 1:
        lo = lr[1]
        return setitem(a, (slice(dim(lo) if lo.isconst() else lo, lo + expr(ix.shape[0])),) + key[1:], val)
    if isinstance(ix.shape[0], int):
        va = toarr(val)
        for k in range(ix.shape[0]):
            vk = getitem(va, k) if va.ndim == a.ndim else va
            setitem(a, (ix.at(ZERO + k),) + key[1:], vk)
        return
    scatter(a, ix, val)

def scatter(a, ix, val):
    """a[ix] = val for an injective index array along the first axis"""
    if not a.idx or any(e.key != IX[k].key for k, e in enumerate(a.idx)) : raise Unsupported('scatter into a view')
    mask = None
    if isinstance(ix, MaskSel):
        if len(ix.shape) != 1: raise Unsupported('scatter with a selection')
        mask = ix.mask
        vm = val.mask if isinstance(val, MaskSel) else None
        scalar = not isinstance(val, MaskSel) and toarr(val).ndim == 0
        if vm is not None and vm.key == mask.key or scalar:
            ib, n = ix.body, ix.shape[0]
        else:
            mask = None; ix = materialise(ix); ib, n = ix.body, ix.shape[0]
    else: ib, n = ix.body, ix.shape[0]
    if isinstance(val, MaskSel) and mask is None: val = materialise(val)
    k = in_range((n,))
    try:
        ib = T.renorm(ib)
        if mask is None or True:
            c0 = mask_cond(mask) if mask is not None else T.CT
            require(T.cor(T.cnot(c0), T.cand(cmp_le(ZERO, ib), cmp_lt(ib, expr(a.shape[0])))), 'scatter index within %s' % (a.shape[0],), 'IndexError')
    finally: popn(k)
    inv = inverse_of(ib, n, IX[0])
    if inv is None: raise Unsupported('scatter assignment')
    c, p = inv
    if isinstance(val, MaskSel):
        vb = val.body; vs = val.shape
    else:
        va = toarr(val); vs = va.shape; vb = va.body
        if a.dtype == 'i' and va.dtype == 'f' and not int_valued(va.body): raise Unsupported('float stored in integer array')
    if len(vs) == a.ndim:
        if not is1(vs[0]) or is1(n):
            if not same_dim(vs[0], n): raise PyExc('ValueError', 'shape mismatch in assignment')
        for x, y in zip(vs[1:], a.shape[1:]):
            if not same_dim(x, y): raise PyExc('ValueError', 'shape mismatch in assignment')
        vb = subst(vb, {'#0': p})
    elif len(vs): raise Unsupported('broadcast in scatter assignment')
    if mask is not None: c = T.cand(c, mask_cond(subst(mask, {'#0': p})))
    k = in_range(a.shape)
    try: a.buf.write(ite(c, vb, a.buf.body))
    finally: popn(k)

# ---------------------------------------------------------------- reshape
def reshape(a, shape):
    shape = list(shape)
    known = ONE
    neg = None
    for k, s in enumerate(shape):
        if isinstance(s, Arr): s = shape[k] = s.scalar()
        if isinstance(s, int) and s == -1: neg = k
        elif isinstance(s, Expr) and s.isconst() and s.constval() == -1: neg = k
        else: known = known * expr(s)
    if neg is not None:
        tot = expr(a.size)
        q = tot / known
        if not T.is_int_expr(q):
            raise Unsupported('reshape division %s / %s' % (tot, known))
        shape[neg] = q
    shape = [dim(s) for s in shape]
    tot = ONE
    for s in shape: tot = tot * expr(s)
    if not same_dim(tot, a.size):
        raise PyExc('ValueError', 'cannot reshape array of size %s into shape %s' % (a.size, shape))
    # match dims ignoring ones
    od = [(k, s) for k, s in enumerate(a.shape) if not is1(s)]
    nd = [(k, s) for k, s in enumerate(shape) if not is1(s)]
    newidx = [ZERO] * a.ndim
    if len(od) == len(nd) and all(same_dim(x[1], y[1]) for x, y in zip(od, nd)):
        for (k, _), (q, _) in zip(od, nd): newidx[k] = IX[q]
        return a.view(shape, newidx)
    # general: flatten index
    flat = ZERO
    for k, s in enumerate(shape): flat = flat * expr(s) + IX[k]
    rem = flat
    n = in_range(shape)
    try:
        for k in reversed(range(a.ndim)):
            s = expr(a.shape[k])
            if is1(a.shape[k]):
                newidx[k] = ZERO; continue
            if all(is1(x) for x in a.shape[:k]):
                newidx[k] = rem; rem = ZERO
            else:
                newidx[k] = T.mk_fn('mod', rem, s)
                rem = T.mk_fn('fdiv', rem, s, isint=True)
    finally:
        popn(n)
    v = a.view(shape, newidx)
    return v

def lam1(a):
    """Lam of a 1-d array"""
    g = gensym()
    return Lam([g], a.at(atom(g)))

def lam2(a):
    g, h = gensym(), gensym()
    C = T.get_ctx()
    fs = [cmp_le(ZERO, atom(g)), cmp_lt(atom(g), expr(a.shape[0])), cmp_le(ZERO, atom(h)), cmp_lt(atom(h), expr(a.shape[1]))]
    for f in fs: C.push(f)
    try: b = T.renorm(a.at(atom(g), atom(h)))
    finally:
        for f in fs: C.pop()
    return Lam([g, h], b)

def lamn(a):
    if isinstance(a, MaskSel): a = materialise(a)
    gs = [gensym() for _ in range(a.ndim)]
    if not gs: return a.at()
    b = a.at(*[atom(g) for g in gs])
    for g, s in zip(gs, a.shape):
        if isinstance(s, int) and 1 < s <= 4 and g.key in b.fv:
            r = ZERO
            for k in range(s): r = r + T.ind(cmp_eq(atom(g), T.const(k))) * subst(b, {g.key: T.const(k)})
            b = r
    return Lam(gs, b)
