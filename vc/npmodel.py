"""Symbolic semantics of the numpy / scipy / math functions used by the code under verification
(assumed contracts on dependencies; each is cross-checked against the real library by tests of the
engine itself, and on every run by the concrete execution of the same contracts)."""
from . import terms as T
from . import arrays as A
from .arrays import Arr, Seq, MaskSel, PyExc, IX, toarr, ew, bshape, bbody, dim, same_dim, is1, getitem, reshape
from .terms import Expr, Cond, Lam, Unsupported, expr, ZERO, ONE, cmp_le, cmp_lt, cmp_eq, ite, ind, atom, gensym, subst, sum_over
import itertools
from fractions import Fraction as Q

_cnt = itertools.count()
class Rand(object):
    """names of the fresh random arrays drawn on the current path"""
    log = []
    loop = []

class DType(object):
    def __init__(self, k, name): self.k = k; self.name = name
    def __repr__(self): return self.name
    def __call__(self, x=0):
        if isinstance(x, Arr) and x.ndim == 0: x = x.at()
        if self.k == 'i':
            if isinstance(x, (int, bool)): return int(x)
            e = expr(x)
            if T.is_int_expr(e): return e
            raise Unsupported('int()')
        return expr(x)
FLOAT = DType('f', 'float64'); INT = DType('i', 'int64'); BOOL = DType('b', 'bool'); OBJ = DType('o', 'object')

def dt(d, default='f'):
    if d is None: return default
    if isinstance(d, DType): return d.k
    fn = getattr(d, 'fn', None)
    if fn is not None:
        k = {'b_int': 'i', 'b_float': 'f', 'b_bool': 'b'}.get(getattr(fn, '__name__', ''))
        if k: return k
    if d is float: return 'f'
    if d is int: return 'i'
    if d is bool: return 'b'
    if d is object: return 'o'
    if isinstance(d, str):
        return {'float64': 'f', 'f': 'f', 'd': 'f', 'i': 'i', 'float': 'f', 'int': 'i', 'bool': 'b', 'object': 'o', 'O': 'o', 'float64': 'f', 'double': 'f'}[d]
    return 'o'

def shp(s):
    if isinstance(s, (int, Expr)): return (dim(s),)
    if isinstance(s, Arr):
        if s.ndim == 0: return (dim(s.at()),)
        if s.ndim == 1 and isinstance(s.shape[0], int): return tuple(dim(s.at(ZERO + k)) for k in range(s.shape[0]))
    return tuple(dim(x.scalar() if isinstance(x, Arr) else x) for x in s)

class ObjArr(object):
    """object array with concrete length"""
    def __init__(self, items): self.items = list(items); self.serial = next(A._ids)
    def _get(self, f): return list(self.items)
    def _restore(self, f, old): self.items = old
    def touch(self): A.HEAP.log.append((self, 'items', list(self.items)))

class OArrSeq(object):
    pass

def zeros(shape, dtype=None, order='C'):
    return Arr.new(shp(shape), ZERO, dt(dtype))
def ones(shape, dtype=None, order='C'):
    return Arr.new(shp(shape), ONE, dt(dtype))
def full(shape, v, dtype=None, order='C'):
    s = shp(shape)
    a = toarr(v)
    return Arr.new(s, bbody(a, s), dt(dtype, a.dtype))
def empty(shape, dtype=None, order='C'):
    s = shp(shape)
    d = dt(dtype)
    if d == 'o':
        if len(s) == 1 and isinstance(s[0], int): return ObjArr([None] * s[0])
        if len(s) == 1: return SymObjArr(s[0])
        raise Unsupported('object array')
    n = 'uninit%d' % next(_cnt)
    return Arr.new(s, T.app(n, *IX[:len(s)]), d)

class SymObjArr(object):
    """object array of symbolic length; filled by a per-element loop"""
    def __init__(self, n):
        self.n = dim(n); self.writes = []; self.fn = None
    def _get(self, f): return getattr(self, f)
    def _restore(self, f, old): setattr(self, f, old)

def zeros_like(a, dtype=None):
    a = toarr(a); return Arr.new(a.shape, ZERO, dt(dtype, a.dtype))
def ones_like(a, dtype=None):
    a = toarr(a); return Arr.new(a.shape, ONE, dt(dtype, a.dtype))
def empty_like(a, dtype=None):
    a = toarr(a); return empty(a.shape, DType(dt(dtype, a.dtype), ''))
def full_like(a, v, dtype=None):
    a = toarr(a); return full(a.shape, v, DType(dt(dtype, a.dtype), ''))
def eye(n, M=None, dtype=None):
    return Arr.new((n, n if M is None else M), ind(cmp_eq(IX[0], IX[1])), dt(dtype))
def arange(*a, **kw):
    d = kw.get('dtype')
    if len(a) == 1: lo, hi = 0, a[0]
    else: lo, hi = a[0], a[1]
    if len(a) > 2: raise Unsupported('arange step')
    n = dim(expr(hi) - expr(lo))
    return Arr.new((n,), IX[0] + lo, dt(d, 'i'))
def objlist(x):
    from .interp import Obj
    return isinstance(x, (list, tuple)) and len(x) > 0 and any(isinstance(y, Obj) and y.cls.lookup('__len__')[0] is None or y is None for y in x)
def asarray(x, dtype=None):
    if isinstance(x, (ObjArr, SymObjArr)): return x
    if objlist(x): return ObjArr(x)
    if dtype is not None and dt(dtype) == 'o': raise Unsupported('object asarray')
    if isinstance(x, MaskSel): return x
    from .interp import SymRange
    if isinstance(x, SymRange): return arange(x.lo, x.hi, dtype=dtype)
    if isinstance(x, range): x = list(x)
    if isinstance(x, Arr):
        if dtype is None or dt(dtype) == x.dtype: return x
        return x.copy(dt(dtype))
    a = toarr(x)
    if dtype is not None and dt(dtype) != a.dtype: a = a.copy(dt(dtype))
    return a
def array(x, dtype=None, copy=True, ndmin=0):
    a = asarray(x, dtype)
    if isinstance(a, ObjArr): return ObjArr(a.items)
    if isinstance(a, MaskSel): a = A.materialise(a)
    if isinstance(a, Arr):
        a = a.copy()
        while a.ndim < ndmin: a = a.view((1,) + a.shape, [IX[k + 1] for k in range(a.ndim)])
    return a
def copy_(x, order='K'):
    a = asarray(x)
    if isinstance(a, ObjArr): return ObjArr(a.items)
    if isinstance(a, MaskSel): a = A.materialise(a)
    return a.copy()

# ---- elementwise
def _u(fn, dtype=None):
    def f(x, out=None):
        if isinstance(x, MaskSel): x = A.materialise(x)
        r = ew(fn, x, **({'dtype': dtype} if dtype else {}))
        if out is not None:
            A.assign(out, r); return out
        return r
    return f
def _b(fn, dtype=None):
    def f(x, y, out=None):
        if isinstance(x, MaskSel) or isinstance(y, MaskSel): return maskop(fn, x, y)
        r = ew(fn, x, y, **({'dtype': dtype} if dtype else {}))
        if out is not None:
            A.assign(out, r); return out
        return r
    return f

def maskop(fn, x, y):
    m = x if isinstance(x, MaskSel) else y
    if any(not isinstance(v, MaskSel) and toarr(v).ndim for v in (x, y)):
        return ew(fn, *[A.materialise(v) if isinstance(v, MaskSel) else v for v in (x, y)])
    def body(v):
        if isinstance(v, MaskSel):
            if v.mask.key != m.mask.key or len(v.shape) != len(m.shape): raise Unsupported('mask mismatch')
            return v.body
        a = toarr(v)
        if a.ndim: raise Unsupported('mask selection with array')
        return a.body
    return MaskSel(m.mask, fn(body(x), body(y)), m.shape)

add = _b(lambda a, b: a + b); subtract = _b(lambda a, b: a - b); multiply = _b(lambda a, b: a * b)
def divide(x, y):
    r = _b(lambda a, b: a * T.powe(b, -1), 'f')(x, y)
    return r
true_divide = divide
def power(x, y):
    ye = expr(y) if not isinstance(y, Arr) else y.scalar()
    if not ye.isconst(): raise Unsupported('power')
    return ew(lambda a: T.powe(a, ye.constval()), x)
negative = _u(lambda a: -a)
exp = _u(T.mk_exp, 'f'); log = _u(T.mk_log, 'f')
sqrt = _u(lambda a: T.powe(a, Q(1, 2)), 'f')
square = _u(lambda a: a * a)
absolute = _u(T.mk_abs)
maximum = _b(T.mk_max2)
minimum = _b(lambda a, b: -T.mk_max2(-a, -b))
sin = _u(lambda a: T.mk_fn('sin', a), 'f'); cos = _u(lambda a: T.mk_fn('cos', a), 'f')
def sign(x): return ew(lambda a: ite(cmp_lt(ZERO, a), ONE, ite(cmp_lt(a, ZERO), -ONE, ZERO)), x)
less = _b(lambda a, b: ind(cmp_lt(a, b)), 'b'); less_equal = _b(lambda a, b: ind(cmp_le(a, b)), 'b')
greater = _b(lambda a, b: ind(cmp_lt(b, a)), 'b'); greater_equal = _b(lambda a, b: ind(cmp_le(b, a)), 'b')
equal = _b(lambda a, b: ind(cmp_eq(a, b)), 'b'); not_equal = _b(lambda a, b: ONE - ind(cmp_eq(a, b)), 'b')
logical_not = _u(lambda a: ONE - a, 'b')
logical_and = _b(lambda a, b: a * b, 'b')
logical_or = _b(lambda a, b: a + b - a * b, 'b')
def where(c, a=None, b=None):
    if a is None: raise Unsupported('where with one argument')
    d = A.rdt(toarr(a).dtype, toarr(b).dtype)
    return ew(lambda c_, a_, b_: c_ * a_ + (ONE - c_) * b_, c, a, b, dtype=d)

# ---- reductions
def _axes(a, axis):
    if axis is None: return list(range(a.ndim))
    if isinstance(axis, tuple): return [x % a.ndim for x in axis]
    if not isinstance(axis, int): raise Unsupported('axis')
    if axis >= a.ndim or axis < -a.ndim: raise PyExc('AxisError', 'axis out of bounds')
    return [axis % a.ndim]

def _reduce(a, axis, keepdims, red):
    a = toarr(a)
    axs = _axes(a, axis)
    keep = [k for k in range(a.ndim) if k not in axs]
    gs = dict((k, gensym()) for k in axs)
    mp = {}
    shape = []
    p = 0
    for k in range(a.ndim):
        if k in gs:
            mp['#%d' % k] = atom(gs[k])
            if keepdims: shape.append(1); p += 1
        else:
            if p != k: mp['#%d' % k] = IX[p]
            shape.append(a.shape[k]); p += 1
    body = subst(a.body, mp)
    for k in axs:
        body = red(gs[k], expr(a.shape[k]), body)
    if not shape: return body
    return Arr.new(shape, body, a.dtype)

def sum_(a, axis=None, dtype=None, out=None, keepdims=False):
    if isinstance(a, MaskSel): a = A.materialise(a)
    r = _reduce(a, axis, keepdims, lambda g, n, b: T.Sum(g, n, b))
    if isinstance(r, Arr) and r.dtype == 'b': r = Arr.new(r.shape, r.body, 'i')
    return r
def mean(a, axis=None, dtype=None, out=None, keepdims=False):
    a = toarr(a)
    n = ONE
    for k in _axes(a, axis): n = n * expr(a.shape[k])
    s = _reduce(a, axis, keepdims, lambda g, m, b: T.Sum(g, m, b))
    return divide(s, n)
def average(a, axis=None, weights=None):
    if weights is None: return mean(a, axis)
    w = toarr(weights); a = toarr(a)
    if axis is None and w.ndim == a.ndim: return divide(sum_(multiply(a, w)), sum_(w))
    if axis == 0 and w.ndim == 1:
        ww = reshape(w, [w.shape[0]] + [1] * (a.ndim - 1))
        return divide(sum_(multiply(a, ww), 0), sum_(w))
    raise Unsupported('average')
def max_(a, axis=None, out=None, keepdims=False):
    if isinstance(a, MaskSel): a = A.materialise(a)
    return _reduce(a, axis, keepdims, lambda g, n, b: T.mk_max(n, Lam([g], b)))
def min_(a, axis=None, out=None, keepdims=False):
    return negative(max_(negative(a), axis, None, keepdims))
def _exists(a, test):
    """condition: test(element) holds for some element"""
    n = A.in_range(a.shape)
    try:
        c = test(T.renorm(a.body))
        r = T.get_ctx().decide(c)
    finally: A.popn(n)
    if a.ndim == 0: return c
    nonempty = all(is1(s) or T.get_ctx().implied(cmp_lt(ZERO, expr(s))) for s in a.shape)
    if r is False: return T.CF
    if nonempty:
        if r is True: return T.CT
        w = T.csubst(c, dict(('#%d' % k, ZERO) for k in range(a.ndim)))
        if T.get_ctx().decide(w) is True: return T.CT
    e = T.ind(c)
    for k in range(a.ndim):
        g = gensym()
        e = subst(e, {'#%d' % k: atom(g)})
        e = T.Sum(g, expr(a.shape[k]), e)
    return T.cmp_ne(e, ZERO)
def _nonzero(a):
    a = toarr(a)
    return (lambda b: T.cnot(A.mask_cond(b)), A.mask_cond) if a.dtype == 'b' else (lambda b: cmp_eq(b, ZERO), lambda b: T.cmp_ne(b, ZERO))
def _truth(c):
    return True if c.kind == 'T' else False if c.kind == 'F' else c
def any_(a, axis=None):
    if axis is not None: raise Unsupported('any')
    return _truth(_exists(toarr(a), _nonzero(a)[1]))
def all_(a, axis=None):
    if axis is not None: raise Unsupported('all')
    return _truth(T.cnot(_exists(toarr(a), _nonzero(a)[0])))
def array_equal(a, b):
    a = toarr(a); b = toarr(b)
    if a.ndim != b.ndim: return False
    for x, y in zip(a.shape, b.shape):
        if not A.same_dim(x, y):
            if isinstance(x, int) and isinstance(y, int): return False
            raise Unsupported('array_equal of different shapes')
    return all_(equal(a, b))
def array_equiv(a, b):
    a = toarr(a); b = toarr(b)
    if a.ndim == b.ndim: return array_equal(a, b)
    raise Unsupported('array_equiv')
def count_nonzero(a):
    a = toarr(a)
    if a.dtype != 'b': return sum_(not_equal(a, 0))
    if a.ndim == 1 and not isinstance(a.shape[0], int) and not any('#%d' % k in a.body.fv for k in range(1, 10)):
        # written with the number of the others: the selections of both are then comparable
        try: return expr(a.shape[0]) - T.sym(A.selection(ONE - a.body, a.shape[0])[0], True)
        except Unsupported: pass
    return sum_(a)
def percentile(a, q):
    """an uninterpreted number (a function of the values and the percentage)"""
    a = toarr(a)
    if a.ndim != 1 or toarr(q).ndim: raise Unsupported('percentile')
    return Arr.new((), T.app('percentile', toarr(q).scalar(), expr(a.shape[0]), A.lam1(a)))
def prod(a, axis=None):
    a = toarr(a)
    raise Unsupported('prod')
def trace(a, offset=0, axis1=0, axis2=1):
    a = toarr(a)
    if a.ndim == 2:
        return sum_over(a.shape[0], lambda k: a.at(k, k))
    d = diagonal(a, 0, axis1, axis2)
    return sum_(d, -1)
def diagonal(a, offset=0, axis1=0, axis2=1):
    a = toarr(a)
    if offset: raise Unsupported('diagonal offset')
    axis1 %= a.ndim; axis2 %= a.ndim
    if not same_dim(a.shape[axis1], a.shape[axis2]): raise Unsupported('diagonal of rectangular')
    rest = [k for k in range(a.ndim) if k not in (axis1, axis2)]
    newidx = [None] * a.ndim
    for p, k in enumerate(rest): newidx[k] = IX[p]
    newidx[axis1] = newidx[axis2] = IX[len(rest)]
    v = a.view([a.shape[k] for k in rest] + [a.shape[axis1]], newidx)
    return v
def diag(v, k=0):
    v = toarr(v)
    if k: raise Unsupported('diag offset')
    if v.ndim == 2: return diagonal(v).copy()
    b = subst(v.body, {'#0': IX[0]})
    return Arr.new((v.shape[0], v.shape[0]), ind(cmp_eq(IX[0], IX[1])) * b, v.dtype)
def triu(a, k=0):
    a = toarr(a)
    n = A.in_range(a.shape)
    try:
        b = ind(cmp_le(IX[0] + k, IX[1])) * a.body
    finally: A.popn(n)
    return Arr.new(a.shape, b, a.dtype)
def tril(a, k=0):
    a = toarr(a)
    n = A.in_range(a.shape)
    try:
        b = ind(cmp_le(IX[1], IX[0] + k)) * a.body
    finally: A.popn(n)
    return Arr.new(a.shape, b, a.dtype)
def cumsum(a, axis=None):
    a = toarr(a)
    if a.ndim != 1: raise Unsupported('cumsum nd')
    g = gensym()
    return Arr.new(a.shape, T.Sum(g, IX[0] + 1, a.at(atom(g))), a.dtype)

# ---- linear algebra
def dot(a, b, out=None):
    a = toarr(a); b = toarr(b)
    if a.ndim == 0 or b.ndim == 0: return multiply(a, b)
    ka = a.ndim - 1
    kb = max(b.ndim - 2, 0)
    if not same_dim(a.shape[ka], b.shape[kb]):
        raise PyExc('ValueError', 'shapes %s and %s not aligned' % (a.shape, b.shape))
    n = a.shape[ka]
    sh = list(a.shape[:ka]) + [b.shape[k] for k in range(b.ndim) if k != kb]
    g = gensym()
    ma = {'#%d' % ka: atom(g)}
    mb = {}
    p = ka
    for k in range(b.ndim):
        if k == kb: mb['#%d' % k] = atom(g)
        else:
            mb['#%d' % k] = IX[p]; p += 1
    nn = A.in_range(sh)
    try:
        body = T.Sum(g, expr(n), subst(a.body, ma) * subst(b.body, mb))
    finally: A.popn(nn)
    if not sh: return body
    return Arr.new(sh, body, A.rdt(a.dtype, b.dtype))
def matmul(a, b):
    a = toarr(a); b = toarr(b)
    if a.ndim <= 2 and b.ndim <= 2: return dot(a, b)
    # stacked
    ea = ['%d' % k for k in range(a.ndim)]
    def names(nd, last):
        return [chr(ord('a') + k) for k in range(nd - len(last))] + last
    la = list('zyxw'[-(a.ndim - 2):]) if a.ndim > 2 else []
    nb = max(a.ndim, b.ndim, 2) - 2
    bat = [chr(ord('p') + k) for k in range(nb)]
    if b.ndim == 1:
        sa = ''.join(bat[nb - (a.ndim - 2):]) + 'ij'
        return einsum(sa + ',j->' + ''.join(bat) + 'i', a, b)
    sa = ''.join(bat[nb - (a.ndim - 2):]) + 'ij'
    sb = ''.join(bat[nb - (b.ndim - 2):]) + 'jk'
    return einsum('%s,%s->%sik' % (sa, sb, ''.join(bat)), a, b)
def einsum(spec, *ops, **kw):
    spec = spec.replace(' ', '')
    ops = [toarr(o) for o in ops]
    if '...' in spec: raise Unsupported('einsum ellipsis')
    if '->' in spec: ins, out = spec.split('->')
    else:
        ins = spec
        cnt = {}
        for ch in ins.replace(',', ''): cnt[ch] = cnt.get(ch, 0) + 1
        out = ''.join(sorted(ch for ch in cnt if cnt[ch] == 1))
    ins = ins.split(',')
    dims = {}
    for s, o in zip(ins, ops):
        if len(s) != o.ndim: raise PyExc('ValueError', 'einsum operand dimension')
        for ch, d in zip(s, o.shape):
            if ch in dims:
                if is1(dims[ch]): dims[ch] = d
                elif not is1(d) and not same_dim(dims[ch], d): raise PyExc('ValueError', 'einsum shapes')
            else: dims[ch] = d
    var = {}
    for k, ch in enumerate(out): var[ch] = IX[k]
    gs = {}
    for ch in dims:
        if ch not in var:
            gs[ch] = gensym(); var[ch] = atom(gs[ch])
    body = ONE
    for s, o in zip(ins, ops):
        body = body * o.at(*[ZERO if is1(d) else var[ch] for ch, d in zip(s, o.shape)])
    for ch in gs: body = T.Sum(gs[ch], expr(dims[ch]), body)
    if not out: return body
    return Arr.new([dims[ch] for ch in out], body)
def outer(a, b):
    a = ravel(toarr(a)); b = ravel(toarr(b))
    return Arr.new((a.shape[0], b.shape[0]), a.body * subst(b.body, {'#0': IX[1]}))
def ravel(a): return reshape(toarr(a), [-1]) if toarr(a).ndim != 1 else toarr(a)
def _sq(S):
    S = toarr(S)
    if S.ndim != 2 or not same_dim(S.shape[0], S.shape[1]):
        raise PyExc('LinAlgError', 'expected square matrix, got shape %s' % (S.shape,))
    return S
def inv(S, check_finite=True, overwrite_a=False):
    S = toarr(S)
    if S.ndim == 3:
        g = gensym()
        sub = getitem(S, (atom(g),))
        r = inv(sub)
        return Arr.new(S.shape, subst(subst(r.body, {'#0': IX[1], '#1': IX[2]}), {g.key: IX[0]}))
    S = _sq(S)
    L = A.lam2(S)
    nn = A.in_range(S.shape)
    try: b = T.mk_inv(expr(S.shape[0]), L, IX[0], IX[1])
    finally: A.popn(nn)
    return Arr.new(S.shape, b)
def solve(S, b, **kw):
    return dot(inv(S), _bvec(S, b))
def _bvec(S, b):
    return toarr(b)
def slogdet(S):
    S = _sq(S)
    return (ONE, T.mk_logdet(expr(S.shape[0]), A.lam2(S)))
def det(S):
    S = _sq(S)
    return T.mk_exp(T.mk_logdet(expr(S.shape[0]), A.lam2(S)))
def _cholbody(S):
    S = _sq(S)
    L = A.lam2(S)
    nn = A.in_range(S.shape)
    try: return T.mk_chol(expr(S.shape[0]), L, IX[0], IX[1]), S.shape
    finally: A.popn(nn)
def cho_factor(S, lower=False, overwrite_a=False, check_finite=True):
    b, sh = _cholbody(S)
    if is1(sh[0]):
        return (Arr.new(sh, b), lower)
    garb = 'garb%d' % next(_cnt)
    if lower:
        bt = subst(b, {'#0': IX[1], '#1': IX[0]})
        body = ind(cmp_le(IX[1], IX[0])) * bt + ind(cmp_lt(IX[0], IX[1])) * T.app(garb, IX[0], IX[1])
    else:
        body = ind(cmp_le(IX[0], IX[1])) * b + ind(cmp_lt(IX[1], IX[0])) * T.app(garb, IX[0], IX[1])
    return (Arr.new(sh, body), lower)
def cholesky(S, lower=False, upper=False, **kw):
    b, sh = _cholbody(S)
    return Arr.new(sh, b)   # scipy: upper
def np_cholesky(S):
    S = toarr(S)
    b, sh = _cholbody(S)
    return Arr.new(sh, subst(b, {'#0': IX[1], '#1': IX[0]}))
def chol_matrix(c, lower):
    """the matrix whose Cholesky factor is c"""
    c = _sq(c)
    n = c.shape[0]
    if is1(n):
        e = c.at(ZERO, ZERO)
        return Arr.new((1, 1), e * e)
    g, h = gensym(), gensym()
    C = T.get_ctx()
    facts = [cmp_le(ZERO, atom(g)), cmp_le(atom(g), atom(h)), cmp_lt(atom(h), expr(n))]
    for f in facts: C.push(f)
    try:
        e = c.at(atom(g), atom(h)) if not lower else c.at(atom(h), atom(g))
        e = T.renorm(e)
    finally:
        for f in facts: C.pop()
    at = T._as_atom(e)
    if at is not None and at.kind == 'cholU' and at.args[2].key == g.key + '' or at is not None and at.kind == 'cholU':
        if at.args[2].key == atom(g).key and at.args[3].key == atom(h).key:
            L = at.args[1]
            return Arr.new(c.shape, L(IX[0], IX[1]))
    # diagonal factor: [g==h]*d(g)
    # opaque triangular factor: matrix = U^T U
    if lower:
        cc = c.T
    else: cc = c
    u = triu(cc)
    return dot(u.T, u)
def cho_solve(cl, b, overwrite_b=False, check_finite=True):
    c, lower = cl
    M = chol_matrix(c, lower)
    b = toarr(b)
    if not same_dim(M.shape[0], b.shape[0]):
        raise PyExc('ValueError', 'incompatible dimensions (%s and %s)' % (M.shape, b.shape))
    return dot(inv(M), b)
def svd(S, **kw):
    """of a symmetric positive definite matrix: arbitrary positive s and U with U diag(s) U^T = S"""
    S = _sq(S)
    b, sh = _cholbody(S)
    s = T.mk_exp(T.app('svd_logs', IX[0], S.at(IX[0], IX[0])))
    V = b
    b = subst(b, {'#0': IX[1], '#1': IX[0]})
    s1 = subst(s, {'#0': IX[1]})
    return (Arr.new(sh, b * T.powe(s1, Q(-1, 2))), Arr.new((sh[0],), s), Arr.new(sh, V * T.powe(s, Q(-1, 2))))
def solve_triangular(a, b, trans=0, lower=False, **kw):
    raise Unsupported('solve_triangular')

# ---- shape
def hstack(seq):
    arrs = [atleast_1d(toarr(x)) for x in _items(seq)]
    if all(a.ndim <= 1 for a in arrs): return concatenate(arrs, 0)
    return concatenate(arrs, 1)
def vstack(seq):
    arrs = []
    for x in _items(seq):
        a = toarr(x)
        if a.ndim == 1: a = a.view((1,) + a.shape, [IX[1]])
        elif a.ndim == 0: a = a.view((1, 1), [])
        arrs.append(a)
    return concatenate(arrs, 0)
def _items(seq):
    if isinstance(seq, (list, tuple)): return seq
    if isinstance(seq, Arr) and isinstance(seq.shape[0], int):
        return [getitem(seq, k) for k in range(seq.shape[0])]
    raise Unsupported('sequence of arrays')
def concatenate(seq, axis=0):
    arrs = [toarr(x) for x in _items(seq)]
    nd = arrs[0].ndim
    if axis < 0: axis += nd
    if axis >= nd: raise PyExc('AxisError', 'axis %d is out of bounds for array of dimension %d' % (axis, nd))
    for a in arrs:
        if a.ndim != nd: raise PyExc('ValueError', 'all the input array dimensions must match')
        for k in range(nd):
            if k != axis and not same_dim(a.shape[k], arrs[0].shape[k]):
                raise PyExc('ValueError', 'concatenation dimension mismatch')
    off = ZERO
    body = ZERO
    sh = list(arrs[0].shape)
    tot = ZERO
    for a in arrs: tot = tot + expr(a.shape[axis])
    sh[axis] = tot
    nn = A.in_range([dim(s) for s in sh])
    try:
        for a in arrs:
            n = expr(a.shape[axis])
            if n.isconst() and n.constval() == 0: continue
            b = subst(a.body, {'#%d' % axis: IX[axis] - off}) if off.t else a.body
            c = ind(cmp_le(off, IX[axis])) * ind(cmp_lt(IX[axis], off + n))
            cc = T.renorm(c)
            body = body + cc * b
            off = off + n
    finally: A.popn(nn)
    return Arr.new(sh, body, A.rdt(*[a.dtype for a in arrs]))
def stack(seq, axis=0):
    if isinstance(seq, Seq): return toarr(seq)
    if axis != 0: raise Unsupported('stack axis')
    return A.stack0([toarr(x) for x in _items(seq)])
def repeat(a, repeats, axis=None):
    a = toarr(a)
    if axis is None:
        a = ravel(a); axis = 0
    r = expr(repeats) if not isinstance(repeats, Arr) else repeats.scalar()
    sh = list(a.shape)
    n = sh[axis]
    sh[axis] = dim(expr(n) * r)
    if is1(n): b = subst(a.body, {'#%d' % axis: ZERO})
    else: b = subst(a.body, {'#%d' % axis: T.mk_fn('fdiv', IX[axis], r, isint=True)})
    return Arr.new(sh, b, a.dtype)
def tile(a, reps):
    a = toarr(a)
    reps = [reps] if isinstance(reps, (int, Expr)) else list(reps)
    while len(reps) < a.ndim: reps.insert(0, 1)
    while a.ndim < len(reps): a = a.view((1,) + a.shape, [IX[k + 1] for k in range(a.ndim)])
    sh = []; mp = {}
    for k, r in enumerate(reps):
        n = a.shape[k]
        sh.append(dim(expr(n) * expr(r)))
        if is1(n): mp['#%d' % k] = ZERO
        elif not is1(r): mp['#%d' % k] = T.mk_fn('mod', IX[k], expr(n))
    return Arr.new(sh, subst(a.body, mp), a.dtype)
def squeeze(a, axis=None):
    a = toarr(a)
    ks = [k for k in range(a.ndim) if not (is1(a.shape[k]) and (axis is None or axis % a.ndim == k))]
    ni = [ZERO] * a.ndim
    for p, k in enumerate(ks): ni[k] = IX[p]
    return a.view([a.shape[k] for k in ks], ni)
def expand_dims(a, axis):
    a = toarr(a)
    if axis < 0: axis += a.ndim + 1
    sh = list(a.shape); sh.insert(axis, 1)
    return a.view(sh, [IX[k if k < axis else k + 1] for k in range(a.ndim)])
def transpose(a, axes=None):
    a = toarr(a)
    if axes is None: return a.T
    ni = [None] * a.ndim
    for p, k in enumerate(axes): ni[k] = IX[p]
    return a.view([a.shape[k] for k in axes], ni)
def swapaxes(a, x, y):
    p = list(range(toarr(a).ndim)); p[x], p[y] = p[y], p[x]
    return transpose(a, p)
def broadcast_to(a, shape):
    a = toarr(a); s = shp(shape)
    r = Arr.new(s, bbody(a, s), a.dtype); r.buf.ro = True
    return r
def atleast_1d(a):
    a = toarr(a); return a if a.ndim else a.view((1,), [])
def atleast_2d(a):
    a = toarr(a)
    if a.ndim >= 2: return a
    if a.ndim == 1: return a.view((1,) + a.shape, [IX[1]])
    return a.view((1, 1), [])
def isscalar(x):
    if isinstance(x, (int, float, Expr)): return True
    if isinstance(x, Q): return True
    return False
def searchsorted(a, v, side='left', sorter=None):
    """number of elements below v (left) / not above v (right); for a sorted first argument"""
    a = toarr(a)
    if sorter is not None or a.ndim != 1: raise Unsupported('searchsorted')
    n = expr(a.shape[0])
    L = A.lam1(a)
    def f(x):
        g = gensym()
        e = L(atom(g))
        return T.Sum(g, n, ind(cmp_lt(e, x) if side == 'left' else cmp_le(e, x)))
    return ew(f, v, dtype='i')
def argsort(a, axis=-1, kind=None): 
    a = toarr(a)
    if a.ndim != 1: raise Unsupported('argsort nd')
    return Arr.new(a.shape, T.app('argsort', A.lam1(a), expr(a.shape[0]), IX[0], isint=True), 'i')
def argmax(a, axis=None):
    a = toarr(a)
    if a.ndim != 1: raise Unsupported('argmax nd')
    r = T.app('argmax', A.lam1(a), expr(a.shape[0]), isint=True)
    return r

# ---- random
def fresh_rand(kind, shape):
    k = len(Rand.log)
    name = '%s!%d' % (kind, k)
    Rand.log.append((name, tuple(shape)))
    if kind == 'unif': T.get_ctx().flags.setdefault(name, set()).update(('nonneg', 'lt1'))
    return name
def lv(): return tuple(atom(g) for g in Rand.loop)
def r_normal(loc=0.0, scale=1.0, size=None):
    s = () if size is None else shp(size)
    if size is None:
        s = bshape(toarr(loc).shape, toarr(scale).shape)
    nm = fresh_rand('norm', s)
    e = T.app(nm, *(lv() + tuple(IX[:len(s)])))
    a = Arr.new(s, e) if s else e
    return add(multiply(a, scale), loc)
def r_standard_normal(size=None): return r_normal(size=size)
def r_randn(*s): return r_normal(size=s if s else None)
def r_uniform(low=0.0, high=1.0, size=None):
    s = () if size is None else shp(size)
    nm = fresh_rand('unif', s)
    e = T.app(nm, *(lv() + tuple(IX[:len(s)])))
    a = Arr.new(s, e) if s else e
    if isinstance(low, (int, float)) and low == 0 and isinstance(high, (int, float)) and high == 1: return a
    return add(multiply(a, subtract(high, low)), low)
def r_rand(*s): return r_uniform(size=tuple(s) if s else None)
def r_random(size=None): return r_uniform(size=size)
def r_mvn(mean, cov, size=None, **kw):
    m = toarr(mean); C = _sq(cov)
    if m.ndim != 1 or not same_dim(m.shape[0], C.shape[0]): raise PyExc('ValueError', 'mean and cov must have same length')
    s = () if size is None else shp(size)
    n = m.shape[0]
    nm = fresh_rand('norm', s + (n,))
    L = A.lam2(C)
    k = len(s)
    nn = A.in_range(s + (n,))
    try:
        body = sum_over(n, lambda q: T.app(nm, *(lv() + tuple(IX[:k]) + (q,))) * T.mk_chol(expr(n), L, q, IX[k]))
    finally: A.popn(nn)
    return Arr.new(s + (n,), body + subst(m.body, {'#0': IX[k]}))
def r_permutation(x):
    if isinstance(x, (int, Expr)): x = arange(x)
    a = toarr(x)
    nm = fresh_rand('perm', a.shape)
    n = expr(a.shape[0])
    T.get_ctx().flags.setdefault(nm, set()).add(('range', ZERO, n))
    p = T.app(nm, *(lv() + (IX[0],)), isint=True)
    return Arr.new(a.shape, subst(a.body, {'#0': p}), a.dtype)

def deepcopy(x, memo=None):
    from .interp import deep_copy
    return deep_copy(x)

class Mod(object):
    def __init__(self, name, d): self.name = name; self.d = d

def logsumexp(a, axis=None, b=None):
    return T.mk_log(sum_over(toarr(a).shape[0], lambda k: T.mk_exp(toarr(a).at(k))))

def math_log(x, base=None):
    return T.mk_log(toarr(x).scalar())
PI = T.sym('pi')

def build():
    linalg = Mod('numpy.linalg', dict(svd=svd, inv=inv, solve=solve, slogdet=slogdet, det=det, cholesky=np_cholesky,
                                     LinAlgError='LinAlgError'))
    random = Mod('numpy.random', dict(normal=r_normal, uniform=r_uniform, rand=r_rand, randn=r_randn,
             standard_normal=r_standard_normal, random=r_random, random_sample=r_random,
             multivariate_normal=r_mvn, permutation=r_permutation))
    np = dict(zeros=zeros, ones=ones, full=full, empty=empty, zeros_like=zeros_like, ones_like=ones_like,
              empty_like=empty_like, full_like=full_like, eye=eye, identity=eye, arange=arange, asarray=asarray, array=array,
              ascontiguousarray=asarray, asanyarray=asarray, asfarray=asarray,
              copy=copy_, add=add, subtract=subtract, multiply=multiply, divide=divide, true_divide=divide, power=power,
              negative=negative, exp=exp, log=log, sqrt=sqrt, square=square, abs=absolute, absolute=absolute, fabs=absolute,
              maximum=maximum, minimum=minimum, sign=sign, sin=sin, cos=cos, less=less, less_equal=less_equal, greater=greater,
              greater_equal=greater_equal, equal=equal, not_equal=not_equal, logical_not=logical_not,
              logical_and=logical_and, logical_or=logical_or, where=where, sum=sum_, mean=mean, average=average,
              max=max_, amax=max_, min=min_, amin=min_, trace=trace, diagonal=diagonal, diag=diag, triu=triu, tril=tril,
              cumsum=cumsum, percentile=percentile, dot=dot, matmul=matmul, einsum=einsum, outer=outer, inner=dot, ravel=ravel, hstack=hstack, vstack=vstack,
              concatenate=concatenate, stack=stack, repeat=repeat, tile=tile, squeeze=squeeze, expand_dims=expand_dims,
              transpose=transpose, swapaxes=swapaxes, broadcast_to=broadcast_to, atleast_1d=atleast_1d, atleast_2d=atleast_2d,
              isscalar=isscalar, searchsorted=searchsorted, argsort=argsort, argmax=argmax, count_nonzero=count_nonzero, any=any_, all=all_, array_equal=array_equal, array_equiv=array_equiv,
              reshape=lambda a, s: reshape(toarr(a), list(s) if isinstance(s, (list, tuple)) else [s]),
              newaxis=None, pi=PI, float64=FLOAT, double=FLOAT, int64=INT, int32=INT, float_=FLOAT, bool_=BOOL, object_=OBJ,
              ndarray=OBJ, linalg=linalg, random=random, inf=T.sym('inf'), Inf=T.sym('inf'))
    scl = Mod('scipy.linalg', dict(cho_factor=cho_factor, cho_solve=cho_solve, inv=inv, solve=solve, cholesky=cholesky,
                                   det=det, solve_triangular=solve_triangular, LinAlgError='LinAlgError'))
    sp = Mod('scipy', dict(linalg=scl, optimize=Mod('scipy.optimize', {}), special=Mod('scipy.special', dict(logsumexp=logsumexp))))
    math = Mod('math', dict(log=math_log, pi=PI, exp=lambda x: T.mk_exp(toarr(x).scalar()),
                            sqrt=lambda x: T.powe(toarr(x).scalar(), Q(1, 2)), fabs=lambda x: T.mk_abs(toarr(x).scalar()),
                            sin=lambda x: T.mk_fn('sin', toarr(x).scalar()), cos=lambda x: T.mk_fn('cos', toarr(x).scalar())))
    copym = Mod('copy', dict(deepcopy=deepcopy, copy=None))
    from .interp import shallow_copy
    copym.d['copy'] = shallow_copy
    abc = Mod('abc', dict(ABCMeta=None, ABC=None, abstractmethod=lambda f: f))
    return {'abc': abc, 'numpy': Mod('numpy', np), 'scipy': sp, 'scipy.linalg': scl, 'scipy.optimize': sp.d['optimize'],
            'scipy.special': sp.d['special'], 'numpy.linalg': linalg, 'numpy.random': random,
            'math': math, 'copy': copym}
