"""Term language and equational normaliser of the verification-condition generator.

An Expr is a finite sum  c1*m1 + c2*m2 + ...  with rational coefficients.  A monomial is
    SUM_{b1 in [0,n1)} SUM_{b2 in [0,n2)} ...  a1^e1 * a2^e2 * ...
with atoms a_i (symbols, uninterpreted applications, exp/log/pow, matrix functions, Iverson
brackets of conditions) and rational exponents.  Bound variables are named canonically, so two
terms equal up to the ring axioms, renaming of bound variables, re-association and exchange of
sums, and the rewrite rules below have the same key.  All numbers are mathematical reals.
"""
import hashlib, itertools
from fractions import Fraction as Q

class Unsupported(Exception):
    """The code uses something outside the verified subset."""

_atoms = {}
_gens = itertools.count()

def _h(s):
    if len(s) <= 160:
        return s
    return '~' + hashlib.blake2b(s.encode(), digest_size=12).hexdigest()

E0 = frozenset()

class Atom(object):
    __slots__ = ('kind', 'args', 'key', 'fv', 'ht', 'isint', 'inds')
    def __repr__(self):
        return show_atom(self)

def _mk(kind, args, isint=False):
    # args: tuple of str/int/Expr/Lam/Cond
    parts = []
    fv = E0
    ht = 0
    inds = E0
    for a in args:
        if isinstance(a, (Expr, Lam, Cond)):
            parts.append(a.key)
            if a.fv: fv = fv | a.fv
            if a.ht > ht: ht = a.ht
            if a.inds: inds = inds | a.inds
        else:
            parts.append(str(a))
    key = _h(kind + '(' + ','.join(parts) + ')')
    at = _atoms.get(key)
    if at is not None:
        return at
    at = Atom()
    at.kind = kind; at.args = args; at.key = key
    at.fv = fv; at.ht = ht; at.isint = isint
    at.inds = inds
    if kind == 'ind':
        at.inds = inds | frozenset([at])
    _atoms[key] = at
    return at

def var_atom(name, isint=False):
    at = _atoms.get(name)
    if at is None:
        at = Atom()
        at.kind = 'v'; at.args = (name,); at.key = name
        at.fv = frozenset([name]); at.ht = 0; at.isint = isint
        at.inds = E0
        _atoms[name] = at
    return at

def gensym(isint=True):
    return var_atom('%%%d' % next(_gens), isint)

class Mono(object):
    __slots__ = ('binders', 'factors', 'key', 'fv', 'ht', 'inds')
    def __init__(self, binders, factors):
        self.binders = binders
        self.factors = factors
        s = []
        fv = E0
        ht = 0
        inds = E0
        for a, e in factors:
            s.append(a.key if e == 1 else '%s^%s' % (a.key, e))
            if a.fv: fv = fv | a.fv
            if a.ht > ht: ht = a.ht
            if a.inds: inds = inds | a.inds
        k = '.'.join(s)
        if binders:
            bs = []
            for v, n in binders:
                bs.append('%s<%s' % (v.key, n.key))
                if n.fv: fv = fv | n.fv
                if n.ht > ht: ht = n.ht
            k = '[' + ';'.join(bs) + ']' + k
            fv = fv - frozenset(v.key for v, _ in binders)
            ht += 1
        self.key = _h(k)
        self.fv = fv
        self.ht = ht
        self.inds = inds

_MONE = Mono((), ())

class Expr(object):
    __slots__ = ('t', 'key', 'fv', 'ht', 'inds')
    def __init__(self, t):
        # t: dict key -> (coef, Mono), no zero coefficients
        self.t = t
        ks = sorted(t)
        s = []
        fv = E0
        ht = 0
        inds = E0
        for k in ks:
            c, m = t[k]
            s.append('%s*%s' % (c, k))
            if m.fv: fv = fv | m.fv
            if m.ht > ht: ht = m.ht
            if m.inds: inds = inds | m.inds
        self.key = _h('{' + '+'.join(s) + '}')
        self.fv = fv
        self.ht = ht
        self.inds = inds
    def __repr__(self):
        return show(self)
    def __hash__(self):
        return hash(self.key)
    def __eq__(self, o):
        if isinstance(o, Expr):
            return self.key == o.key
        if isinstance(o, (int, Q)):
            return self.key == const(o).key
        return NotImplemented
    def isconst(self):
        return not self.t or (len(self.t) == 1 and _MONE.key in self.t)
    def constval(self):
        if not self.t: return Q(0)
        return self.t[_MONE.key][0]
    def __add__(self, o):
        o = expr(o)
        if not o.t: return self
        if not self.t: return o
        t = dict(self.t)
        for k, (c, m) in o.t.items():
            if k in t:
                c = c + t[k][0]
                if c == 0:
                    del t[k]
                else:
                    t[k] = (c, m)
            else:
                t[k] = (c, m)
        return Expr(t)
    __radd__ = __add__
    def __neg__(self):
        return Expr(dict((k, (-c, m)) for k, (c, m) in self.t.items()))
    def __sub__(self, o):
        return self + (-expr(o))
    def __rsub__(self, o):
        return expr(o) + (-self)
    def scale(self, q):
        if q == 0: return ZERO
        if q == 1: return self
        return Expr(dict((k, (c * q, m)) for k, (c, m) in self.t.items()))
    def __mul__(self, o):
        o = expr(o)
        if o.isconst(): return self.scale(o.constval())
        if self.isconst(): return o.scale(self.constval())
        return mul(self, o)
    __rmul__ = __mul__
    def __truediv__(self, o):
        return self * powe(expr(o), Q(-1))
    def __rtruediv__(self, o):
        return expr(o) * powe(self, Q(-1))
    def __pow__(self, n):
        n = expr(n)
        if not n.isconst():
            raise Unsupported('symbolic exponent')
        return powe(self, n.constval())
    # relations build conditions
    def __lt__(self, o): return cmp_lt(self, expr(o))
    def __le__(self, o): return cmp_le(self, expr(o))
    def __gt__(self, o): return cmp_lt(expr(o), self)
    def __ge__(self, o): return cmp_le(expr(o), self)

class Lam(object):
    """lambda l0,l1,...: body with canonical binder names"""
    __slots__ = ('n', 'body', 'key', 'fv', 'ht', 'inds', 'vars')
    def __init__(self, vs, body):
        h = body.ht + 1
        names = [var_atom('l%d_%d' % (h, k), True) for k in range(len(vs))]
        self.n = len(vs)
        self.body = subst(body, dict((v.key, atom(nm)) for v, nm in zip(vs, names)))
        # ht may not change under renaming
        self.vars = names
        self.ht = max(h, self.body.ht + 1)
        own = frozenset(v.key for v in names)
        self.key = _h('\\%d_%d.' % (h, self.n) + self.body.key)
        self.fv = self.body.fv - own
        self.inds = self.body.inds
    def __call__(self, *args):
        return subst(self.body, dict((v.key, expr(a)) for v, a in zip(self.vars, args)))
    def __repr__(self):
        return '\\%s.%s' % (','.join(v.key for v in self.vars), show(self.body))

def const(q):
    q = Q(q)
    if q == 0: return ZERO
    return Expr({_MONE.key: (q, _MONE)})

ZERO = Expr({})
ONE = const(1)

def expr(x):
    if isinstance(x, Expr): return x
    if isinstance(x, bool): return const(int(x))
    if isinstance(x, (int, Q)): return const(x)
    if isinstance(x, float):
        return const(fl2q(x))
    if isinstance(x, Atom): return atom(x)
    if isinstance(x, Cond): return ind(x)
    raise Unsupported('not a number: %r' % (type(x),))

def fl2q(x):
    if x != x or x in (float('inf'), float('-inf')):
        raise Unsupported('non-finite float constant')
    return Q(repr(x))

def atom(a, e=Q(1)):
    m = Mono((), ((a, Q(e)),))
    return Expr({m.key: (Q(1), m)})

def sym(name, isint=False):
    return atom(var_atom(name, isint))

# ---------------------------------------------------------------- conditions
class Cond(object):
    """kinds: 'T','F','le'(e<=0),'lt'(e<0),'eq'(e==0),'ne','b'(boolean atom),'nb','and','or'"""
    __slots__ = ('kind', 'args', 'key', 'fv', 'ht', 'inds')
    def __init__(self, kind, args):
        self.kind = kind; self.args = args
        fv = E0; ht = 0; inds = E0
        parts = []
        for a in args:
            parts.append(a.key)
            fv = fv | a.fv
            ht = max(ht, a.ht)
            inds = inds | a.inds
        self.key = _h('?' + kind + '(' + ','.join(parts) + ')')
        self.fv = fv; self.ht = ht; self.inds = inds
    def __repr__(self):
        k = self.kind
        if k in ('T', 'F'): return {'T': 'True', 'F': 'False'}[k]
        if k in ('le', 'lt', 'eq', 'ne'):
            return '(%s %s 0)' % (show(self.args[0]), {'le': '<=', 'lt': '<', 'eq': '==', 'ne': '!='}[k])
        if k == 'b': return repr(self.args[0])
        if k == 'nb': return 'not %r' % (self.args[0],)
        return '(' + (' %s ' % k).join(map(repr, self.args)) + ')'
    def __hash__(self): return hash(self.key)
    def __eq__(self, o): return isinstance(o, Cond) and o.key == self.key
    def __invert__(self): return cnot(self)
    def __and__(self, o): return cand(self, o)
    def __or__(self, o): return cor(self, o)

CT = Cond('T', ())
CF = Cond('F', ())

def is_int_expr(e):
    for k, (c, m) in e.t.items():
        if c.denominator != 1: return False
        for a, x in m.factors:
            if not a.isint or x.denominator != 1 or x < 0: return False
    return True

def _zero_factors(e):
    """conditions whose disjunction is e == 0, for a product of real factors; None when e is no product"""
    if any(m.binders for c, m in e.t.values()) or any(x < 0 or x.denominator != 1 for c, m in e.t.values() for a, x in m.factors): return None
    c0, common, rest = content(e)
    if not common or len(common) == 1 and rest.isconst() and common[0][1] == 1: return None
    out = []
    for a, x in common:
        if x < 0: return None
        if not known_pos(a): out.append(Cond('eq', (atom(a),)))
    if not rest.isconst() and scalar_sign(rest) is None: out.append(_normcmp('eq', rest))
    return out

def _normcmp(kind, e):
    e = clear_pos_denoms(e)
    if kind in ('eq', 'ne') and not e.isconst() and not is_int_expr(e):
        z = _zero_factors(e)
        if z is not None: return cor(*z) if kind == 'eq' else cand(*[cnot(c) for c in z])
    if e.isconst():
        v = e.constval()
        r = {'le': v <= 0, 'lt': v < 0, 'eq': v == 0, 'ne': v != 0}[kind]
        return CT if r else CF
    isint = all(a.isint and x.denominator == 1 and x > 0 for _, (c, m) in e.t.items() for a, x in m.factors)
    # scale so that coefficients are coprime integers
    from math import gcd
    den = 1
    for _, (c, m) in e.t.items():
        den = den * c.denominator // gcd(den, c.denominator)
    num = 0
    for k, (c, m) in e.t.items():
        if k == _MONE.key and isint: continue
        num = gcd(num, abs((c * den).numerator))
    sc = Q(den, num or 1)
    e = e.scale(sc)
    if isint and _MONE.key in e.t:
        c0 = e.t[_MONE.key][0]
        if kind in ('le', 'lt'):
            if kind == 'lt':
                e = e + 1 if c0.denominator == 1 else e
                if c0.denominator != 1:
                    import math
                    e = e + (Q(math.ceil(c0)) - c0)
                kind = 'le'
            elif c0.denominator != 1:
                import math
                e = e + (Q(math.ceil(c0)) - c0)
        elif c0.denominator != 1:
            return CF if kind == 'eq' else CT
    elif isint and kind == 'lt':
        e = e + 1
        kind = 'le'
    if kind in ('eq', 'ne'):
        k0 = min(e.t)
        if e.t[k0][0] < 0: e = -e
    return Cond(kind, (e,))

def cmp_le(a, b): return _normcmp('le', expr(a) - expr(b))
def cmp_lt(a, b): return _normcmp('lt', expr(a) - expr(b))
def cmp_eq(a, b): return _normcmp('eq', expr(a) - expr(b))
def cmp_ne(a, b): return _normcmp('ne', expr(a) - expr(b))
def cbool(at): return Cond('b', (atom(at),))

def cnot(c):
    k = c.kind
    if k == 'T': return CF
    if k == 'F': return CT
    if k == 'le': return _normcmp('lt', -c.args[0])
    if k == 'lt': return _normcmp('le', -c.args[0])
    if k == 'eq': return Cond('ne', c.args)
    if k == 'ne': return Cond('eq', c.args)
    if k == 'b': return Cond('nb', c.args)
    if k == 'nb': return Cond('b', c.args)
    if k == 'and': return cor(*[cnot(a) for a in c.args])
    if k == 'or': return cand(*[cnot(a) for a in c.args])

def _flat(kind, cs):
    out = {}
    for c in cs:
        if c.kind == kind:
            for a in c.args: out[a.key] = a
        else:
            out[c.key] = c
    return out

def cand(*cs):
    d = _flat('and', cs)
    d.pop(CT.key, None)
    if CF.key in d: return CF
    for c in d.values():
        if cnot(c).key in d: return CF
    if not d: return CT
    if len(d) == 1: return list(d.values())[0]
    return Cond('and', tuple(d[k] for k in sorted(d)))

def cor(*cs):
    d = _flat('or', cs)
    d.pop(CF.key, None)
    if CT.key in d: return CT
    for c in d.values():
        if cnot(c).key in d: return CT
    if not d: return CF
    if len(d) == 1: return list(d.values())[0]
    return Cond('or', tuple(d[k] for k in sorted(d)))

def csubst(c, mp):
    if not c.fv or c.fv.isdisjoint(mp): return c
    k = c.kind
    if k in ('le', 'lt', 'eq', 'ne'): return _normcmp(k, subst(c.args[0], mp))
    if k in ('b', 'nb'):
        e = subst(c.args[0], mp)
        return Cond(k, (e,))
    if k == 'and': return cand(*[csubst(a, mp) for a in c.args])
    if k == 'or': return cor(*[csubst(a, mp) for a in c.args])
    return c

def ind(c):
    """Iverson bracket as an Expr"""
    k = c.kind
    if k == 'T': return ONE
    if k == 'F': return ZERO
    if k == 'and':
        r = ONE
        for a in c.args: r = r * ind(a)
        return r
    if k == 'or':
        r = ONE
        for a in c.args: r = r * (ONE - ind(a))
        return ONE - r
    if k == 'ne':
        return ONE - ind(cnot(c))
    if k == 'nb':
        return ONE - ind(cnot(c))
    if k == 'eq' and c.args[0].inds:
        e = c.args[0]
        if 0 < len(_top_inds(e)) <= 4:
            r = ZERO
            for cc, val in _hoist(e): r = r + cc * ind(_normcmp('eq', val))
            return r
    return atom(_mk('ind', (c,), True))

def _top_inds(e):
    out = set()
    for k, (c, m) in e.t.items():
        bn = set(v.key for v, _ in m.binders)
        for a, x in m.factors:
            if a.kind == 'ind' and not (a.fv & bn): out.add(a.key)
    return out

def ite(c, a, b):
    a = expr(a); b = expr(b)
    if c.kind == 'T': return a
    if c.kind == 'F': return b
    if a.key == b.key: return a
    i = ind(c)
    return i * a + ind(cnot(c)) * b

# ---------------------------------------------------------------- context (assumptions)
class Context(object):
    """Assumptions in force; decides conditions with z3."""
    def __init__(self):
        self.assume = []       # Conds
        self.cache = {}
        self.qcache = {}       # decided queries up to renaming of generated variables
        self.flags = {}        # app name -> set of flags ('sym','pos','orth'...)
        self.stats = {'z3': 0, 'z3_time': 0.0}
        self.ver = 0
        self.depth = 0
    def push(self, c):
        self.assume.append(c)
        self.ver = tuple(sorted(a.key for a in self.assume)).__hash__()
    def pop(self):
        self.assume.pop()
        self.ver = tuple(sorted(a.key for a in self.assume)).__hash__()
    def decide(self, c, extra=()):
        """True / False / None"""
        if c.kind == 'T': return True
        if c.kind == 'F': return False
        key = (self.ver, c.key, tuple(x.key for x in extra))
        if key in self.cache: return self.cache[key]
        if self.depth > 3: return None
        from . import smt
        self.depth += 1
        try: r = smt.decide(self, c, extra)
        finally: self.depth -= 1
        self.cache[key] = r
        return r
    def implied(self, c, extra=()):
        return self.decide(c, extra) is True
    def unsat(self, conds):
        key = (self.ver, 'U', tuple(x.key for x in conds))
        if key in self.cache: return self.cache[key]
        if self.depth > 3: return False
        from . import smt
        self.depth += 1
        try: r = smt.unsat(self, conds)
        finally: self.depth -= 1
        self.cache[key] = r
        return r

CTX = Context()

def set_ctx(c):
    global CTX
    CTX = c

def get_ctx():
    return CTX

# ---------------------------------------------------------------- multiplication & monomials
def _freshen(m):
    """rename binders of m to gensyms -> (binders, factors)"""
    if not m.binders: return (), m.factors
    mp = {}
    bs = []
    for v, n in m.binders:
        g = gensym()
        bs.append((g, n))
        mp[v.key] = atom(g)
    fs = []
    for a, e in m.factors:
        fs.append((rename_atom(a, mp), e))
    return tuple(bs), tuple(fs)

_ren_cache = {}
def rename_atom(a, mp):
    """substitute var->var (mp: name -> Expr of a var)"""
    if a.fv.isdisjoint(mp): return a
    r = subst_atom(a, mp)
    if len(r.t) == 1:
        (k, (c, m)), = r.t.items()
        if c == 1 and not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1:
            return m.factors[0][0]
    raise AssertionError('renaming changed structure %r -> %r' % (a, r))

def mul(x, y):
    acc = {}
    for k1, (c1, m1) in x.t.items():
        for k2, (c2, m2) in y.t.items():
            c = c1 * c2
            if not m1.factors and not m1.binders:
                _acc(acc, c, m2); continue
            if not m2.factors and not m2.binders:
                _acc(acc, c, m1); continue
            if m1.binders:
                b1, f1 = _freshen(m1)
            else:
                b1, f1 = (), m1.factors
            if m2.binders:
                b2, f2 = _freshen(m2)
            else:
                b2, f2 = (), m2.factors
            r = norm_mono(c, list(b1) + list(b2), list(f1) + list(f2))
            for k, (cc, mm) in r.t.items():
                _acc(acc, cc, mm)
    return Expr(acc)

def _acc(acc, c, m):
    if c == 0: return
    o = acc.get(m.key)
    if o is None:
        acc[m.key] = (c, m)
    else:
        c = c + o[0]
        if c == 0: del acc[m.key]
        else: acc[m.key] = (c, m)

_nm_cache = {}

def norm_mono(c, binders, factors):
    """normalise c * SUM_binders PROD factors; binder vars must be gensyms"""
    # merge equal atoms
    d = {}
    order = []
    for a, e in factors:
        if a.key in d:
            d[a.key] = (a, d[a.key][1] + e)
        else:
            d[a.key] = (a, e)
    fs = []
    redo = None
    hasind = False
    for k, (a, e) in d.items():
        if e == 0: continue
        if a.kind == 'ind':
            e = Q(1)
            hasind = True
        fs.append((a, e))
    # pow atoms with positive integer exponents expand
    for a, e in fs:
        if a.kind == 'pw' and e.denominator == 1 and e > 0:
            rest = [(b, x) for b, x in fs if b is not a]
            p = a.args[0]
            res = p
            for _ in range(int(e) - 1): res = res * p
            return _wrap(c, binders, rest, res)
    if hasind:
        r = _simp_inds(c, binders, fs)
        if r is not None: return r
    # matrix rules
    if binders or len(fs) > 1:
        r = _matrix_rules(c, binders, fs)
        if r is not None: return r
    # unused binders
    used = E0
    for a, e in fs: used = used | a.fv
    for (v, n) in binders: used = used | n.fv
    nb = []
    extra = None
    for (v, n) in binders:
        if v.key in used:
            nb.append((v, n))
        else:
            extra = n if extra is None else extra * n
    if extra is not None:
        return _wrap(c, nb, fs, extra)
    # binder with constant range: 0 -> zero, 1 -> substitute 0
    for (v, n) in nb:
        if n.isconst():
            nv = n.constval()
            if nv <= 0: return ZERO
            if nv == 1:
                rest = [b for b in nb if b[0] is not v]
                return _subst_factors(c, rest, fs, {v.key: ZERO})
            if nv <= 4:
                rest = [b for b in nb if b[0] is not v]
                r = ZERO
                for q in range(int(nv)):
                    r = r + _subst_factors(c, rest, fs, {v.key: const(q)})
                return r
    fs = tuple(sorted(fs, key=lambda t: t[0].key))
    if not nb:
        m = Mono((), fs) if fs else _MONE
        return Expr({m.key: (c, m)})
    return _canon(c, nb, fs)

def _wrap(c, binders, fs, e):
    """c * SUM_binders (PROD fs) * e   with e an Expr possibly mentioning binders"""
    r = {}
    for k, (cc, m) in e.t.items():
        b, f = _freshen(m)
        x = norm_mono(c * cc, list(binders) + list(b), list(fs) + list(f))
        for kk, (c3, m3) in x.t.items():
            _acc(r, c3, m3)
    return Expr(r)

def _subst_factors(c, binders, fs, mp):
    """c*SUM_binders PROD subst(fs, mp)"""
    res = ONE
    keep = []
    binders = [(v, subst(n, mp)) for v, n in binders]
    for a, e in fs:
        if a.fv.isdisjoint(mp):
            keep.append((a, e))
        else:
            res = res * powe(subst_atom(a, mp), e)
    return _wrap(c, binders, keep, res)

def _lin_in(e, vname):
    """if e = k*v + r with r free of v: return (k, r) else None"""
    k = Q(0)
    r = {}
    for key, (c, m) in e.t.items():
        if vname in m.fv:
            if not m.binders and len(m.factors) == 1 and m.factors[0][0].key == vname and m.factors[0][1] == 1:
                k = c
            else:
                return None
        else:
            r[key] = (c, m)
    if k == 0: return None
    return k, Expr(r)

def _simp_inds(c, binders, fs):
    """returns Expr if something changed, None otherwise"""
    bnames = dict((v.key, n) for v, n in binders)
    inds = [a for a, e in fs if a.kind == 'ind']
    # binder range facts
    facts = []
    for v, n in binders:
        facts.append(cmp_le(ZERO, atom(v)))
        facts.append(cmp_lt(atom(v), n))
    # 1. equality elimination on binders
    for a in inds:
        cd = a.args[0]
        if cd.kind == 'eq':
            for vn in cd.fv:
                if vn in bnames:
                    lr = _lin_in(cd.args[0], vn)
                    if lr is None: continue
                    k, r = lr
                    if k not in (1, -1): continue
                    val = r.scale(-1 / k)
                    n = bnames[vn]
                    rest = [b for b in binders if b[0].key != vn]
                    if any(vn in b[1].fv for b in rest): continue
                    others = [(b, e) for b, e in fs if b is not a]
                    rng = ind(cmp_le(ZERO, val)) * ind(cmp_lt(val, n))
                    res = rng
                    keep = []
                    mp = {vn: val}
                    for b, e in others:
                        if vn in b.fv:
                            res = res * powe(subst_atom(b, mp), e)
                        else:
                            keep.append((b, e))
                    return _wrap(c, rest, keep, res)
    # 1b. a <= b and b <= a
    les = dict((a.args[0].args[0].key, a) for a in inds if a.args[0].kind == 'le')
    if len(les) > 1:
        for k, a in les.items():
            x = a.args[0].args[0]
            b = les.get((-x).key)
            if b is not None and b is not a:
                q = _normcmp('eq', x)
                rest = [(y, e) for y, e in fs if y is not a and y is not b]
                return _wrap(c, binders, rest, ind(q))
    # 1c. [x == 0] x = 0
    if len(fs) > 1:
        d = None
        for a in inds:
            cd = a.args[0]
            if cd.kind != 'eq' or len(cd.args[0].t) != 1: continue
            z = _as_atom(cd.args[0])
            if z is not None and any(b is z and e > 0 for b, e in fs): return ZERO
    # 2. implied / contradicted
    for a in inds:
        cd = a.args[0]
        other = [b.args[0] for b in inds if b is not a]
        r = CTX.decide(cd, tuple(facts + other))
        if r is True:
            return norm_mono(c, binders, [(b, e) for b, e in fs if b is not a])
        if r is False:
            return ZERO
    # 3. equality between free variables: substitute in the other factors
    for a in inds:
        cd = a.args[0]
        if cd.kind == 'eq':
            cands = sorted(vn for vn in cd.fv if vn not in bnames)
            for vn in reversed(cands):
                at = _atoms.get(vn)
                if at is None or not at.isint: continue
                lr = _lin_in(cd.args[0], vn)
                if lr is None or lr[0] not in (1, -1): continue
                val = lr[1].scale(-1 / lr[0])
                if any(b is not a and vn in b.fv for b, e in fs) or any(vn in n.fv for v, n in binders):
                    rest = [(b, e) for b, e in fs if b is not a]
                    return _subst_factors_keep(c, binders, rest, {vn: val}, a)
                break
    # 4. range narrowing of binders by le-conditions
    for a in inds:
        cd = a.args[0]
        if cd.kind == 'le':
            for vn in sorted(cd.fv):
                if vn in bnames:
                    if any(vn in b[1].fv for b in binders): continue
                    lr = _lin_in(cd.args[0], vn)
                    if lr is None or lr[0] not in (1, -1): continue
                    k, r = lr
                    n = bnames[vn]
                    if k == 1:
                        # v <= -r  -> v < 1-r ; need 0<=1-r<=n
                        hi = ONE - r
                        oth = tuple(f for f in facts if vn not in f.fv)
                        if CTX.implied(cmp_le(ZERO, hi), oth) and CTX.implied(cmp_le(hi, n), oth):
                            nb = [(v, hi if v.key == vn else nn) for v, nn in binders]
                            return norm_mono(c, nb, [(b, e) for b, e in fs if b is not a])
                    else:
                        lo = r
                        oth = tuple(f for f in facts if vn not in f.fv)
                        if CTX.implied(cmp_le(ZERO, lo), oth) and CTX.implied(cmp_le(lo, n), oth):
                            nb = [(v, (n - lo) if v.key == vn else nn) for v, nn in binders]
                            rest = [(b, e) for b, e in fs if b is not a]
                            return _subst_factors(c, nb, rest, {vn: sym(vn) + lo})
    return None

def _subst_factors_keep(c, binders, fs, mp, keepatom):
    res = ONE
    keep = [(keepatom, Q(1))]
    binders = [(v, subst(n, mp)) for v, n in binders]
    for a, e in fs:
        if a.fv.isdisjoint(mp):
            keep.append((a, e))
        else:
            res = res * powe(subst_atom(a, mp), e)
    return _wrap(c, binders, keep, res)

def _matrix_rules(c, binders, fs):
    bn = dict((v.key, n) for v, n in binders)
    # chol contraction: SUM_k U[k,i] U[k,j] over full range -> S[i,j]; also squares
    chols = [(a, e) for a, e in fs if a.kind == 'cholU']
    if chols:
        for x in range(len(chols)):
            a, e = chols[x]
            n, L, k, i = a.args
            kv = _single_var(k)
            if kv in bn and bn[kv].key == n.key:
                if e == 2:
                    pair = (i, i); rem = [(b, y) for b, y in fs if b is not a]
                elif e == 1:
                    pair = None
                    for y in range(x + 1, len(chols)):
                        b, eb = chols[y]
                        if eb == 1 and b.args[1].key == L.key and _single_var(b.args[2]) == kv:
                            pair = (i, b.args[3])
                            rem = [(z, w) for z, w in fs if z is not a and z is not b]
                            break
                    if pair is None: continue
                else:
                    continue
                if any(kv in z.fv for z, w in rem): continue
                if kv in pair[0].fv or kv in pair[1].fv: continue
                rest = [b for b in binders if b[0].key != kv]
                return _wrap(c, rest, rem, L(pair[0], pair[1]))
        # triangularity: [k<=i] U[k,i] = U[k,i], [i<k] U[k,i] = 0
        for a, e in chols:
            n, L, k, i = a.args
            lo = cmp_le(k, i); hi = cmp_lt(i, k); eqc = cmp_eq(k, i)
            for b, eb in fs:
                if b.kind != 'ind': continue
                ck = b.args[0].key
                if ck == lo.key: return norm_mono(c, binders, [(p, q) for p, q in fs if p is not b])
                if ck == hi.key: return ZERO
    # log-determinant from a Cholesky factor: SUM_k log U[k,k] = logdet/2
    for a, e in fs:
        if a.kind == 'log' and e == 1:
            at = _as_atom(a.args[0])
            if at is None or at.kind != 'cholU': continue
            n, L, k, i = at.args
            kv = _single_var(k)
            if kv in bn and i.key == k.key and bn[kv].key == n.key and kv not in n.fv and kv not in L.fv:
                rem = [(z, w) for z, w in fs if z is not a]
                if any(kv in z.fv for z, w in rem): continue
                rest = [b for b in binders if b[0].key != kv]
                if any(kv in b[1].fv for b in rest): continue
                return _wrap(c / 2, rest, rem, mk_logdet(n, L))
    # inverse contraction: SUM_k inv(A)[i,k] * A[k,j] with A an opaque array
    invs = [(a, e) for a, e in fs if a.kind == 'inv' and e == 1]
    for a, e in invs:
        n, L, i, j = a.args
        body = L.body
        if len(body.t) != 1: continue
        (kk, (cc, mm)), = body.t.items()
        if mm.binders or len(mm.factors) != 1 or mm.factors[0][1] != 1 or mm.factors[0][0].kind not in ('app',): continue
        opq = mm.factors[0][0]
        for (p, q, pos) in ((i, j, 1), (j, i, 0)):
            kv = _single_var(q)
            if kv not in bn or bn[kv].key != n.key or kv in p.fv: continue
            # need factor L(k, x) (pos=1: inv[i,k]*A[k,x]) or L(x,k)
            issym = lam_symmetric(L)
            for b, eb in fs:
                if eb != 1 or b is a or b.kind != 'app' or b.args[0] != opq.args[0]: continue
                if kv not in b.fv: continue
                if any(kv in z.fv for z, w in fs if z is not a and z is not b): continue
                # try match L(k,X)
                for trans in ((0,) if not issym else (0, 1)):
                    X = _match_lam(opq, L, b, kv, pos if not trans else 1 - pos)
                    if X is not None and kv not in X.fv:
                        rem = [(z, w) for z, w in fs if z is not a and z is not b]
                        rest = [bb for bb in binders if bb[0].key != kv]
                        return _wrap(c / cc, rest, rem, ind(cmp_eq(p, X)))
    for a, e in invs:
        r = _inv_composite(c, binders, fs, a, bn)
        if r is not None: return r
    return None

def _lead(L):
    """composite term of the matrix used to orient inv(S) S = I: inv(S) lead -> I - inv(S) (S - lead)"""
    best = None
    for k, (c, m) in L.body.t.items():
        if not m.binders or any(a.kind == 'ind' for a, _ in m.factors): continue
        if any(a.kind == 'inv' for a, _ in m.factors) and len(L.body.t) > 2: pass
        q = (len(m.factors), len(m.binders), k)
        if best is None or q > best[0]: best = (q, c, m)
    return None if best is None else best[1:]

def _inv_composite(c, binders, fs, a, bn):
    n, L, i, j = a.args
    ld = _lead(L)
    if ld is None: return None
    cc, m = ld
    pb = dict((v.key, nn) for v, nn in m.binders)
    pf = list(m.factors)
    if len(fs) <= len(pf): return None
    issym = lam_symmetric(L)
    v0, v1 = L.vars[0].key, L.vars[1].key
    for (p, q, pos) in ((i, j, 1), (j, i, 0)):
        kv = _single_var(q)
        if kv not in bn or bn[kv].key != n.key or kv in p.fv: continue
        others = [(b, eb) for b, eb in fs if b is not a]
        for trans in ((0, 1) if issym else (0,)):
            first, second = (v0, v1) if pos == (1 if not trans else 0) else (v1, v0)
            mp = {first: atom(_bvar(binders, kv))}
            for mp2, used in _match_all(pf, others, mp, pb, second, bn):
                X = mp2.get(second)
                if X is None: continue
                vs = [_single_var(mp2[b]) for b in pb if b in mp2]
                if len(vs) != len(pb) or len(set(vs)) != len(vs) or kv in vs: continue
                if any(bn[x].key != subst(pb[b], {}).key for b, x in ((b, _single_var(mp2[b])) for b in pb)): continue
                gone = set(vs) | {kv}
                rem = [(z, w) for t, (z, w) in enumerate(others) if t not in used]
                if any(z.fv & gone for z, w in rem) or X.fv & gone or p.fv & gone: continue
                rest = [b for b in binders if b[0].key not in gone]
                if any(b[1].fv & gone for b in rest): continue
                g = gensym()
                g0, g1 = (atom(g), X) if first == v0 else (X, atom(g))
                tail = L(g0, g1) - _lead_inst(L, cc, m, g0, g1)
                invp = mk_inv(n, L, p, atom(g)) if pos == 1 else mk_inv(n, L, atom(g), p)
                r = ind(cmp_eq(p, X)) - Sum(g, n, invp * tail)
                return _wrap(c / cc, rest, rem, r)
    return None

def _lead_inst(L, cc, m, x, y):
    e = Expr({m.key: (cc, m)})
    return subst(e, {L.vars[0].key: x, L.vars[1].key: y})

def _bvar(binders, key):
    for v, _ in binders:
        if v.key == key: return v

def _match_all(pf, others, mp, pb, second, bn, used=()):
    """assign every pattern factor to a distinct factor of the monomial"""
    if not pf:
        yield mp, set(used); return
    # most constrained factor first: one sharing an already bound variable
    k0 = 0
    for k, (b, e) in enumerate(pf):
        if b.fv & set(mp): k0 = k; break
    (b, e) = pf[k0]
    rest = pf[:k0] + pf[k0 + 1:]
    for t, (z, w) in enumerate(others):
        if t in used or w != e or z.kind != b.kind: continue
        for m2 in _unify_atom(b, z, mp, pb, second, bn):
            for r in _match_all(rest, others, m2, pb, second, bn, used + (t,)): yield r

def _unify_atom(a, z, mp, pb, second, bn):
    if len(a.args) != len(z.args): return
    orders = [z.args]
    if a.kind == 'app':
        if a.args[0] != z.args[0]: return
        sp = SYMMETRIC.get(a.args[0])
        if sp is not None:
            w = list(z.args); w[sp[0] + 1], w[sp[1] + 1] = w[sp[1] + 1], w[sp[0] + 1]
            orders.append(tuple(w))
    elif a.kind == 'inv' and lam_symmetric(z.args[1]):
        orders.append((z.args[0], z.args[1], z.args[3], z.args[2]))
    for za in orders:
        m2 = dict(mp)
        if all(_unify(x, y, m2, pb, second, bn) for x, y in zip(a.args, za)): yield m2

def _unify(x, y, mp, pb, second, bn):
    if not isinstance(x, Expr) or not isinstance(y, Expr):
        kx = getattr(x, 'key', x)
        if kx == getattr(y, 'key', y): return not (isinstance(x, Lam) and x.fv & (set(pb) | {second}))
        if isinstance(x, (Lam, Cond)) and type(x) is type(y) and x.fv <= set(mp):
            try: return _sub_arg(x, mp).key == y.key
            except Exception: return False
        return False
    v = _single_var(x)
    if v is not None and v in mp: return mp[v].key == y.key
    if v is not None and v in pb:
        if _single_var(y) not in bn: return False
        mp[v] = y; return True
    if v is not None and v == second:
        mp[v] = y; return True
    if not (x.fv & (set(pb) | {second} | set(mp))): return x.key == y.key
    if x.fv & (set(pb) | {second}) <= set(mp): return subst(x, mp).key == y.key
    return False

def _match_lam(opq, L, b, kv, pos):
    """L.body = opaque app with args mentioning L.vars[0], L.vars[1]; b is an instance with
    one of the matrix indices = kv. pos=1 -> first matrix index is k, return the other."""
    v0, v1 = L.vars[0].key, L.vars[1].key
    A = opq.args; B = b.args
    if len(A) != len(B): return None
    other = None
    for x, y in zip(A, B):
        if not isinstance(x, Expr):
            if getattr(x, 'key', x) != getattr(y, 'key', y): return None
            continue
        sv = _single_var(x)
        first, second = (v0, v1) if pos == 1 else (v1, v0)
        if sv == first:
            if _single_var(y) != kv: return None
        elif sv == second:
            other = y
        else:
            if v0 in x.fv or v1 in x.fv: return None
            if x.key != y.key: return None
    return other

def _single_var(e):
    if len(e.t) != 1: return None
    (k, (c, m)), = e.t.items()
    if c == 1 and not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1 and m.factors[0][0].kind == 'v':
        return m.factors[0][0].key
    return None

_lsym = {}
def lam_symmetric(L):
    r = _lsym.get(L.key)
    if r is None:
        a, b = gensym(), gensym()
        _lsym[L.key] = False
        r = L(atom(a), atom(b)).key == L(atom(b), atom(a)).key
        _lsym[L.key] = r
    return r

# --- canonical binder naming
def _canon(c, binders, fs):
    h = 0
    for a, e in fs:
        if a.ht > h: h = a.ht
    for v, n in binders:
        if n.ht > h: h = n.ht
    h += 1
    n = len(binders)
    if n == 1:
        order = [binders]
        return _emit(c, h, binders, fs)
    # colour refinement
    col = dict((v.key, 'r' + nn.key) for v, nn in binders)
    names = set(col)
    prev = None
    facts = [(a, e, [x for x in names if x in a.fv]) for a, e in fs]
    for _ in range(n + 1):
        sig = dict((v, [col[v]]) for v in names)
        for a, e, vs in facts:
            if not vs: continue
            for v in vs:
                sk = skel(a, col, v)
                sig[v].append('%s^%s' % (sk, e))
        new = dict((v, _h('|'.join([s[0]] + sorted(s[1:])))) for v, s in sig.items())
        # compress
        classes = {}
        for v in names: classes.setdefault(new[v], []).append(v)
        part = sorted(tuple(sorted(x)) for x in classes.values())
        col = new
        if part == prev or len(classes) == n: break
        prev = part
    classes = {}
    for v in names: classes.setdefault(col[v], []).append(v)
    keys = sorted(classes)
    bd = dict((v.key, (v, nn)) for v, nn in binders)
    if all(len(classes[k]) == 1 for k in keys):
        return _emit(c, h, [bd[classes[k][0]] for k in keys], fs)
    tot = 1
    for k in keys:
        for q in range(2, len(classes[k]) + 1): tot *= q
    best = None
    cnt = 0
    for combo in itertools.product(*[itertools.permutations(sorted(classes[k])) for k in keys]):
        ordv = [bd[v] for grp in combo for v in grp]
        r = _emit(c, h, ordv, fs)
        (kk, (cc, m)), = r.t.items()
        if best is None or kk < best[0]:
            best = (kk, r)
        cnt += 1
        if cnt > 720: break
    return best[1]

def _emit(c, h, binders, fs):
    mp = {}
    nb = []
    for k, (v, n) in enumerate(binders):
        nv = var_atom('b%d_%d' % (h, k), True)
        mp[v.key] = atom(nv)
        nb.append((nv, n))
    nb = tuple((v, subst(n, mp)) for v, n in nb)
    out = []
    for a, e in fs:
        out.append((rename_atom(a, mp), e))
    out = tuple(sorted(out, key=lambda t: t[0].key))
    m = Mono(nb, out)
    return Expr({m.key: (c, m)})

def skel(a, col, mark):
    """string of atom a with binder vars replaced by colours, `mark` distinguished"""
    mp = {}
    for v in a.fv:
        if v in col:
            nm = ('@!' if v == mark else '@') + col[v]
            mp[v] = atom(var_atom(nm, True))
    return subst_atom_key(a, mp)

def subst_atom_key(a, mp):
    r = subst_atom(a, mp)
    return r.key

# ---------------------------------------------------------------- substitution
def subst(e, mp):
    if not e.fv or e.fv.isdisjoint(mp): return e
    acc = {}
    for k, (c, m) in e.t.items():
        if m.fv.isdisjoint(mp):
            _acc(acc, c, m)
            continue
        if m.binders:
            b, f = _freshen(m)
            b = [(v, subst(n, mp)) for v, n in b]
        else:
            b, f = [], m.factors
        keep = []
        res = None
        for a, x in f:
            if a.fv.isdisjoint(mp):
                keep.append((a, x))
            else:
                s = subst_atom(a, mp)
                # fast path: single atom result
                fa = _as_atom(s)
                if fa is not None:
                    keep.append((fa, x))
                else:
                    s = powe(s, x)
                    res = s if res is None else res * s
        if res is None:
            r = norm_mono(c, list(b), keep)
        else:
            r = _wrap(c, b, keep, res)
        for kk, (cc, mm) in r.t.items():
            _acc(acc, cc, mm)
    return Expr(acc)

def _as_atom(e):
    if len(e.t) != 1: return None
    (k, (c, m)), = e.t.items()
    if c == 1 and not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1:
        return m.factors[0][0]
    return None

def subst_lam(L, mp):
    if L.fv.isdisjoint(mp): return L
    gs = [gensym() for _ in range(L.n)]
    body = subst(L.body, dict((v.key, atom(g)) for v, g in zip(L.vars, gs)))
    return Lam(gs, subst(body, mp))

def _sub_arg(x, mp):
    if isinstance(x, Expr): return subst(x, mp)
    if isinstance(x, Lam): return subst_lam(x, mp)
    if isinstance(x, Cond): return csubst(x, mp)
    return x

def subst_atom(a, mp):
    """-> Expr"""
    k = a.kind
    if k == 'v':
        return mp.get(a.key) or (atom(a) if a.key not in mp else mp[a.key])
    if a.fv.isdisjoint(mp): return atom(a)
    args = tuple(_sub_arg(x, mp) for x in a.args)
    return rebuild(k, args, a.isint)

def rebuild(k, args, isint=False):
    if k == 'app': return app(args[0], *args[1:], isint=isint)
    if k == 'exp': return mk_exp(args[0])
    if k == 'log': return mk_log(args[0])
    if k == 'pw': return mk_pw(args[0])
    if k == 'ind': return ind(args[0])
    if k == 'inv': return mk_inv(*args)
    if k == 'logdet': return mk_logdet(*args)
    if k == 'cholU': return mk_chol(*args)
    if k == 'maxr': return mk_max(args[0], args[1])
    if k == 'fn': return mk_fn(args[0], *args[1:], isint=isint)
    raise Unsupported('rebuild ' + k)

# ---------------------------------------------------------------- atom constructors
APP_RULES = {}   # app name f -> (app name g, fn): f(.., g(args)) = fn(args)
SYMMETRIC = {}   # app name -> tuple of argument position pairs that commute
def app(name, *args, **kw):
    isint = kw.get('isint', False)
    args = tuple(expr(x) if not isinstance(x, (Lam, str, Cond)) else x for x in args)
    # hoist free indicators out of Expr args
    for pos, x in enumerate(args):
        if isinstance(x, Expr) and x.inds:
            h = _hoist(x)
            if h is not None:
                out = ZERO
                for cc, val in h:
                    na = args[:pos] + (val,) + args[pos + 1:]
                    out = out + cc * app(name, *na, isint=isint)
                return out
    rl = APP_RULES.get(name)
    if rl is not None and len(args) == 1 and isinstance(args[0], Expr):
        a = _as_atom(args[0])
        if a is not None and a.kind == 'app' and a.args[0] == rl[0]: return rl[1](a.args[1:])
    sp = SYMMETRIC.get(name)
    if sp:
        i, j = sp
        if args[j].key < args[i].key:
            l = list(args)
            l[i], l[j] = l[j], l[i]
            args = tuple(l)
    return atom(_mk('app', (name,) + args, isint))

def _hoist(x, bound=()):
    """If x mentions top-level indicators split into [(indicator expr, value)], else None.
    Only splits on indicators occurring as direct factors of binder-free monomials."""
    conds = {}
    for k, (c, m) in x.t.items():
        bn = set(v.key for v, _ in m.binders)
        for a, e in m.factors:
            if a.kind == 'ind' and not (a.fv & bn):
                conds[a.key] = a
    if not conds: return None
    if len(conds) > 8: raise Unsupported('too many conditions in one term')
    a = conds[min(conds)]
    cd = a.args[0]
    pos = set_ind(x, a, True)
    neg = set_ind(x, a, False)
    return [(atom(a), pos), (ind(cnot(cd)), neg)]

def set_ind(x, a, val):
    """replace indicator atom a by 0/1 in direct factors (and its negation)"""
    neg = None
    nc = cnot(a.args[0])
    acc = ZERO
    for k, (c, m) in x.t.items():
        hit = [f for f in m.factors if f[0] is a]
        hitn = [f for f in m.factors if f[0].kind == 'ind' and f[0].args[0].key == nc.key]
        if not hit and not hitn:
            acc = acc + Expr({k: (c, m)})
            continue
        if (hit and not val) or (hitn and val): continue
        b, f = _freshen(m)
        f = [(p, e) for p, e in f if not (p is a or (p.kind == 'ind' and p.args[0].key == nc.key))]
        acc = acc + norm_mono(c, list(b), f)
    return acc

def _split_on_inds(x, fun):
    """apply fun to x under hoisted indicators, or None"""
    if not x.inds: return None
    h = _hoist(x)
    if h is None: return None
    out = ZERO
    for cc, val in h:
        out = out + cc * fun(val)
    return out

def mk_exp(e):
    e = expr(e)
    r = _split_on_inds(e, mk_exp)
    if r is not None: return r
    res = ONE
    fs = []
    for k, (c, m) in e.t.items():
        # exp(c * log(a)) -> a^c
        if not m.binders and len(m.factors) == 1 and m.factors[0][1] == 1 and m.factors[0][0].kind == 'log':
            res = res * powe(m.factors[0][0].args[0], c)
            continue
        fs.append((_mk('exp', (Expr({k: (Q(1), m)}),)), c))
    return _wrap(Q(1), [], fs, res) if fs else res

def known_pos(a):
    """atom is positive"""
    if a.kind == 'exp': return True
    if a.kind == 'pw': return expr_pos(a.args[0])
    if a.kind in ('app', 'v'):
        nm = a.args[0]
        return 'pos' in CTX.flags.get(nm, ())
    if a.kind == 'cholU': return a.args[2].key == a.args[3].key
    if a.kind == 'fn': return a.args[0] in ('Cosh',)
    return False

def expr_pos(e):
    if not e.t: return False
    if len(e.t) == 2 and _MONE.key in e.t and is_int_expr(e) and not any(m.binders for _, (c, m) in e.t.items()):
        return CTX.implied(cmp_lt(ZERO, e))
    if any(c < 0 for c, m in e.t.values()): return scalar_sign(e) == 1
    for k, (c, m) in e.t.items():
        if c <= 0: return False
        for a, x in m.factors:
            if x.denominator == 1 and x.numerator % 2 == 0 and False: continue
            if not known_pos(a): return False
    return True

def nonneg(e):
    """no term of e can be negative (sums of products of non-negative factors)"""
    if not e.t: return True
    c0, common, rest = content(e)
    if common and not rest.isconst():
        s = scalar_sign(rest) or (-scalar_sign(-rest) if scalar_sign(-rest) else None)
        if s is not None: return c0 * s > 0 and all(nonneg_factor(a, x) for a, x in common)
    return nonneg_split(e)

def nonneg_factor(a, x):
    if a.kind == 'ind' or known_pos(a): return True
    if x.denominator == 1 and x.numerator % 2 == 0: return True
    if a.kind == 'pw': return nonneg(a.args[0])
    if a.kind in ('app', 'v'):
        return 'nonneg' in CTX.flags.get(a.args[0], ()) or a.isint and CTX.implied(cmp_le(ZERO, atom(a)))
    return False

def nonneg_split(e):
    """terms that differ only in a scalar factor: (1 - a) x"""
    groups = {}
    for k, (c, m) in e.t.items():
        bn = set(v.key for v, _ in m.binders)
        b, f = _freshen(m)
        sc = [(a, x) for a, x in f if a.kind == 'v' and not a.isint and not (a.fv & bn)]
        core = norm_mono(Q(1), list(b), [(a, x) for a, x in f if not any(a is y for y, z in sc)])
        if len(core.t) != 1: return False
        g = groups.setdefault(core.key, [core, ZERO])
        g[1] = g[1] + norm_mono(c, [], sc)
    for core, co in groups.values():
        for c, m in core.t.values():
            for a, x in m.factors:
                if nonneg_factor(a, x): continue
                if a.kind == 'pw' and x.denominator == 1 and nonneg(-a.args[0]): co = -co
                else: return False
        if co.isconst():
            if co.constval() < 0: return False
        elif scalar_sign(co) != 1 and CTX.implied(Cond('le', (-co,))) is not True: return False
    return True

def known_neg(a): return a.kind == 'pw' and scalar_sign(a.args[0]) == -1

def scalar_sign(e):
    """sign of a small expression in scalar variables under the context: 1, -1 or None"""
    if len(e.t) > 4 or any(m.binders or any(a.kind != 'v' or a.isint or x < 0 for a, x in m.factors) for c, m in e.t.values()): return None
    if CTX.implied(Cond('lt', (-e,))): return 1
    if CTX.implied(Cond('lt', (e,))): return -1
    return None

def mk_log(e):
    e = expr(e)
    r = _split_on_inds(e, mk_log)
    if r is not None: return r
    if e.isconst():
        v = e.constval()
        if v == 1: return ZERO
        if v > 0:
            # factor into primes
            out = ZERO
            for n, s in ((v.numerator, 1), (v.denominator, -1)):
                d = 2
                while n > 1:
                    if d * d > n: d = n
                    k = 0
                    while n % d == 0:
                        n //= d; k += 1
                    if k: out = out + atom(_mk('log', (const(d),))).scale(s * k)
                    d += 1
            return out
    if len(e.t) == 1:
        (k, (c, m)), = e.t.items()
        if not m.binders:
            out = mk_log(const(c)) if c > 0 else None
            if out is not None:
                ok = True
                rest = []
                for a, x in m.factors:
                    if a.kind == 'exp':
                        out = out + a.args[0].scale(x)
                    elif known_pos(a):
                        inner = a.args[0] if a.kind == 'pw' else atom(a)
                        out = out + atom(_mk('log', (inner,))).scale(x)
                    else:
                        rest.append((a, x))
                if not rest: return out
                if len(rest) < len(m.factors) or c != 1:
                    mm = Mono((), tuple(rest))
                    return out + mk_log(Expr({mm.key: (Q(1), mm)}))
                if len(rest) == 1 and rest[0][1] != 1 and rest[0][1] != 2:
                    # log(a^x) with a of unknown sign: leave unless odd power
                    pass
    elif expr_pos(e):
        # multi-term sum: pull out common monomial content
        c, common, rest = content(e)
        if common or c != 1:
            return mk_log(_prod(c, common)) + atom(_mk('log', (rest,)))
    return atom(_mk('log', (e,)))

def _prod(c, fs):
    m = Mono((), tuple(sorted(fs, key=lambda t: t[0].key))) if fs else _MONE
    return Expr({m.key: (c, m)})

def content(e):
    """e = c * PROD common * rest"""
    common = None
    for k, (c, m) in e.t.items():
        bn = set(v.key for v, _ in m.binders)
        d = dict((a.key, (a, x)) for a, x in m.factors if not (a.fv & bn) and a.kind != 'ind')
        if common is None:
            common = d
        else:
            nc = {}
            for kk in set(common) | set(d):
                a = (common.get(kk) or d.get(kk))[0]
                x1 = common[kk][1] if kk in common else Q(0)
                x2 = d[kk][1] if kk in d else Q(0)
                x = min(x1, x2)
                if x != 0: nc[kk] = (a, x)
            common = nc
    common = [v for v in common.values() if v[1] != 0]
    k0 = min(e.t)
    c0 = e.t[k0][0]
    if common:
        inv = [(a, -x) for a, x in common]
        r = ZERO
        for k, (c, m) in e.t.items():
            b, f = _freshen(m)
            r = r + norm_mono(c, list(b), list(f) + inv)
        # choose the sign/scale by canonical smallest key
    else:
        r = e
    ks = [k for k in r.t if k != _MONE.key] if len(r.t) <= 3 and is_int_expr(r) else []
    k0 = min(ks or r.t)
    c0 = r.t[k0][0]
    r = r.scale(1 / c0)
    return c0, common, r

def powe(e, x):
    """e ** x"""
    e = expr(e)
    x = Q(x)
    if x == 0: return ONE
    if x == 1: return e
    if not e.t:
        if x > 0: return ZERO
        return mk_fn('div0')
    if e.isconst() and x.denominator == 1:
        return const(e.constval() ** int(x))
    if len(e.t) == 1:
        (k, (c, m)), = e.t.items()
        if not m.binders:
            if x.denominator == 1:
                cc = c ** int(x)
                if any(a.kind == 'ind' for a, _ in m.factors) and x < 0:
                    raise Unsupported('division by a conditionally zero value')
                return norm_mono(cc, [], [(a, y * x) for a, y in m.factors])
            if c > 0:
                # fractional powers of positive monomials
                out = ONE
                rt = _qroot(c, x)
                if rt is not None:
                    out = const(rt)
                else:
                    out = norm_mono(Q(1), [], [(_mk('pw', (const(c),)), x)])
                ok = all(known_pos(a) for a, y in m.factors) or len(m.factors) == 1 and m.factors[0][1].numerator % 2 == 1
                if ok:
                    return norm_mono(Q(1), [], [(a, y * x) for a, y in m.factors]) * out
                mm = Mono((), m.factors)
                return out * norm_mono(Q(1), [], [(_mk('pw', (Expr({mm.key: (Q(1), mm)}),)), x)])
    if x.denominator == 1 and x > 0:
        r = e
        for _ in range(int(x) - 1): r = r * e
        return r
    if e.inds:
        h = _hoist(e)
        if h is not None:
            out = ZERO
            for cc, val in h: out = out + cc * powe(val, x)
            return out
    c, common, rest = content(e)
    if x.denominator != 1:
        if c > 0 and all(known_pos(a) for a, _ in common):
            return powe(_prod(c, common), x) * norm_mono(Q(1), [], [(_mk('pw', (rest,)), x)])
        return norm_mono(Q(1), [], [(_mk('pw', (e,)), x)])
    return norm_mono(c ** int(x), [], [(a, y * x) for a, y in common] + [(_mk('pw', (rest,)), x)])

def mk_pw(e):
    # used by rebuild: value of the base; the exponent is applied by the caller
    if len(e.t) == 1 and not e.isconst():
        return e
    if e.isconst(): return e
    c, common, rest = content(e)
    if common or c != 1:
        return _prod(c, common) * atom(_mk('pw', (rest,)))
    return atom(_mk('pw', (rest,)))

def _qroot(c, x):
    if x.denominator == 2:
        import math
        n, d = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if n * n == c.numerator and d * d == c.denominator:
            return Q(n, d) ** x.numerator
    return None

def mk_fn(name, *args, **kw):
    isint = kw.get('isint', False)
    args = tuple(expr(x) if not isinstance(x, (Lam, str, Cond)) else x for x in args)
    for pos, x in enumerate(args):
        if isinstance(x, Expr) and x.inds:
            r = _split_on_inds(x, lambda v: mk_fn(name, *(args[:pos] + (v,) + args[pos + 1:]), isint=isint))
            if r is not None: return r
    if name == 'fdiv':
        a, b = args
        if b.isconst() and a.isconst():
            return const((a.constval() / b.constval()).__floor__())
        if b.key == ONE.key and is_int_expr(a): return a
        # multiples
        q = ZERO
        r = ZERO
        for k, (c, m) in a.t.items():
            t = Expr({k: (c, m)}) / b if True else None
            if is_int_expr(t): q = q + t
            else: r = r + Expr({k: (c, m)})
        if q.t or not r.t:
            if not r.t: return q
            return q + mk_fn('fdiv', r, b, isint=True)
        if CTX.implied(cmp_le(ZERO, a)) and CTX.implied(cmp_lt(a, b)): return ZERO
        return atom(_mk('fn', (name,) + args, True))
    if name == 'mod':
        a, b = args
        return a - b * mk_fn('fdiv', a, b, isint=True)
    if name in ('sign',):
        pass
    return atom(_mk('fn', (name,) + args, isint))

def mk_abs(e):
    return ite(cmp_le(ZERO, e), e, -e)

def mk_max2(a, b):
    return ite(cmp_le(b, a), a, b)

def Sum(v, n, body):
    """SUM_{v in [0,n)} body ; v a var Atom (gensym)"""
    n = expr(n)
    acc = {}
    for k, (c, m) in body.t.items():
        b, f = _freshen(m)
        r = norm_mono(c, [(v, n)] + list(b), list(f))
        for kk, (cc, mm) in r.t.items(): _acc(acc, cc, mm)
    return Expr(acc)

def sum_over(n, fun):
    v = gensym()
    n = expr(n)
    CTX.push(cmp_le(ZERO, atom(v))); CTX.push(cmp_lt(atom(v), n))
    try:
        body = fun(atom(v))
    finally:
        CTX.pop(); CTX.pop()
    return Sum(v, n, body)

def mk_max(n, L):
    """max over k in [0,n) of L(k)"""
    n = expr(n)
    if n.isconst() and n.constval() == 1: return L(ZERO)
    g = gensym()
    body = L(atom(g))
    out = ZERO
    inner = ZERO
    for k, (c, m) in body.t.items():
        if g.key in m.fv: inner = inner + Expr({k: (c, m)})
        else: out = out + Expr({k: (c, m)})
    if not inner.t: return out
    return out + atom(_mk('maxr', (n, Lam([g], inner))))

def maxr(n, fun):
    v = gensym()
    return mk_max(n, Lam([v], fun(atom(v))))

# matrices are given as Lam of two variables plus a size
def mk_inv(n, L, i, j):
    n = expr(n); i = expr(i); j = expr(j)
    if n.isconst() and n.constval() == 1:
        return powe(L(ZERO, ZERO), -1)
    for pos, x in ((2, i), (3, j)):
        if x.inds:
            r = _split_on_inds(x, lambda v: mk_inv(n, L, *((v, j) if pos == 2 else (i, v))))
            if r is not None: return r
    if L.inds:
        r = _hoist_lam(L, lambda M: mk_inv(n, M, i, j))
        if r is not None: return r
    # identity and diagonal scalings: inv(c*delta) handled via content
    body = L.body
    c, common, rest = content(body) if body.t else (Q(1), [], body)
    own = set(v.key for v in L.vars)
    cm = [(a, x) for a, x in common if not (a.fv & own)]
    if cm or c != 1:
        gs = [gensym() for _ in L.vars]
        b2 = L(*[atom(g) for g in gs])
        sc = _prod(c, cm)
        L2 = Lam(gs, b2 * powe(sc, -1))
        return powe(sc, -1) * mk_inv(n, L2, i, j)
    if len(body.t) == 1:
        (k, (cc, m)), = body.t.items()
        # diagonal matrix: delta(l0,l1)*d(l0)
        if not m.binders:
            for a, x in m.factors:
                if a.kind == 'ind' and a.args[0].kind == 'eq':
                    e = a.args[0].args[0]
                    if cmp_eq(atom(L.vars[0]), atom(L.vars[1])).args[0].key == e.key:
                        # d = body / delta evaluated on the diagonal
                        d = L(i, i)
                        return ind(cmp_eq(i, j)) * powe(d, -1)
    if lam_symmetric(L) and j.key < i.key:
        i, j = j, i
    return atom(_mk('inv', (n, L, i, j)))

def _hoist_lam(L, fun):
    own = set(v.key for v in L.vars)
    conds = {}
    for k, (c, m) in L.body.t.items():
        bn = set(v.key for v, _ in m.binders)
        for a, e in m.factors:
            if a.kind == 'ind' and not (a.fv & bn) and not (a.fv & own):
                conds[a.key] = a
    if not conds: return None
    a = conds[min(conds)]
    gs = [gensym() for _ in L.vars]
    b = L(*[atom(g) for g in gs])
    return atom(a) * fun(Lam(gs, set_ind(b, a, True))) + ind(cnot(a.args[0])) * fun(Lam(gs, set_ind(b, a, False)))

def mk_logdet(n, L):
    n = expr(n)
    if n.isconst() and n.constval() == 1:
        return mk_log(L(ZERO, ZERO))
    if L.inds:
        r = _hoist_lam(L, lambda M: mk_logdet(n, M))
        if r is not None: return r
    body = L.body
    if len(body.t) == 1:
        (k, (cc, m)), = body.t.items()
        if not m.binders:
            for a, x in m.factors:
                if a.kind == 'ind' and a.args[0].kind == 'eq' and \
                        cmp_eq(atom(L.vars[0]), atom(L.vars[1])).args[0].key == a.args[0].args[0].key:
                    return sum_over(n, lambda q: mk_log(L(q, q)))
    # canonical orientation: logdet(A) = logdet(A^T)
    g0, g1 = gensym(), gensym()
    LT = Lam([g0, g1], L(atom(g1), atom(g0)))
    if LT.key < L.key: L = LT
    return atom(_mk('logdet', (n, L)))

def mk_chol(n, L, i, j):
    """upper-triangular U with U^T U = matrix"""
    n = expr(n); i = expr(i); j = expr(j)
    if n.isconst() and n.constval() == 1:
        return powe(L(ZERO, ZERO), Q(1, 2))
    for pos, x in ((2, i), (3, j)):
        if x.inds:
            r = _split_on_inds(x, lambda v: mk_chol(n, L, *((v, j) if pos == 2 else (i, v))))
            if r is not None: return r
    if L.inds:
        r = _hoist_lam(L, lambda M: mk_chol(n, M, i, j))
        if r is not None: return r
    body = L.body
    if len(body.t) == 1:
        (k, (cc, m)), = body.t.items()
        if not m.binders:
            for a, x in m.factors:
                if a.kind == 'ind' and a.args[0].kind == 'eq' and \
                        cmp_eq(atom(L.vars[0]), atom(L.vars[1])).args[0].key == a.args[0].args[0].key:
                    return ind(cmp_eq(i, j)) * powe(L(i, i), Q(1, 2))
    if CTX.implied(cmp_lt(j, i)): return ZERO
    return atom(_mk('cholU', (n, L, i, j)))

# ---------------------------------------------------------------- differentiation
def deriv(e, v):
    """partial derivative of e with respect to the real variable v (product and chain rules, d inv(A) = -inv(A) dA inv(A),
    d logdet(A) = trace(inv(A) dA))"""
    if v not in e.fv: return ZERO
    acc = ZERO
    for k, (c, m) in e.t.items():
        if v not in m.fv: continue
        b, f = _freshen(m)
        if any(v in n.fv for _, n in b): raise Unsupported('derivative of a summation range')
        for q, (a, x) in enumerate(f):
            if v not in a.fv: continue
            d = deriv_atom(a, v)
            rest = [f[r] for r in range(len(f)) if r != q]
            if x != 1:
                d = (d * powe(a.args[0], x - 1) if a.kind == 'pw' else d * powe(atom(a), x - 1)).scale(x)
            acc = acc + _wrap(c, list(b), rest, d)
    return acc

def deriv_atom(a, v):
    k = a.kind
    if a.key == v: return ONE
    if k == 'pw': return deriv(a.args[0], v)
    if k == 'exp': return atom(a) * deriv(a.args[0], v)
    if k == 'log': return deriv(a.args[0], v) * powe(a.args[0], Q(-1))
    if k in ('inv', 'logdet'):
        n, L = a.args[0], a.args[1]
        if v in n.fv or any(isinstance(x, Expr) and v in x.fv for x in a.args[2:]): raise Unsupported('derivative')
        g, h = gensym(), gensym()
        dL = Lam([g, h], deriv(L(atom(g), atom(h)), v))
        if k == 'logdet': return sum_over(n, lambda p: sum_over(n, lambda q: mk_inv(n, L, p, q) * dL(q, p)))
        i, j = a.args[2], a.args[3]
        return -sum_over(n, lambda p: sum_over(n, lambda q: mk_inv(n, L, i, p) * dL(p, q) * mk_inv(n, L, q, j)))
    raise Unsupported('derivative of ' + show_atom(a)[:80])

# ---------------------------------------------------------------- printing
def show(e, depth=0):
    if not e.t: return '0'
    out = []
    for k in sorted(e.t):
        c, m = e.t[k]
        s = '*'.join(show_atom(a) + ('' if x == 1 else '^%s' % x) for a, x in m.factors)
        for v, n in reversed(m.binders):
            s = 'S[%s<%s](%s)' % (v.key, show(n), s)
        if not s: s = '1'
        out.append(s if c == 1 else ('-' + s if c == -1 else '%s*%s' % (c, s)))
    return ' + '.join(out)

def show_atom(a):
    if a.kind == 'v': return a.args[0]
    if a.kind == 'app':
        return '%s(%s)' % (a.args[0], ','.join(map(lambda x: x if isinstance(x, str) else repr(x), a.args[1:])))
    if a.kind == 'ind': return '[%r]' % (a.args[0],)
    return '%s(%s)' % (a.kind, ','.join(map(lambda x: x if isinstance(x, str) else repr(x), a.args)))

# ---------------------------------------------------------------- equality proving
class NotProved(Exception):
    pass

def free_inds(e):
    """indicator atoms in e (anywhere) whose variables are all free in e"""
    out = {}
    for a in e.inds:
        if a.fv <= e.fv: out[a.key] = a
    return out

def prove_zero(d, ctx=None, depth=0, budget=None):
    """try to prove d == 0 under the context. returns (True, '') or (False, residual)"""
    if budget is None: budget = [400]
    d = renorm(d) if depth else d
    if not d.t: return True, ''
    budget[0] -= 1
    if budget[0] < 0: return False, d
    # denominators
    d2 = clear_denoms(d)
    if not d2.t: return True, ''
    fi = free_inds(d2)
    if fi and depth < 14:
        a = fi[min(fi)]
        cd = a.args[0]
        for c in (cd, cnot(cd)):
            if CTX.unsat((c,)): continue
            CTX.push(c)
            try:
                dd = assume_cond(d2, c)
                ok, res = prove_zero(dd, ctx, depth + 1, budget)
            finally:
                CTX.pop()
            if not ok: return False, res
        return True, ''
    d3 = merge_complements(d2)
    if d3 is not None: return prove_zero(d3, ctx, depth + 1, budget)
    return False, d2

def merge_complements(e):
    """x [c] + x [not c] = x under summation signs; None when no pair is found"""
    for k, (c, m) in e.t.items():
        if not m.binders: continue
        for a, x in m.factors:
            if a.kind != 'ind' or a.args[0].kind != 'le': continue
            b, f = _freshen(m)
            i = [q for q, (y, z) in enumerate(m.factors) if y is a][0]
            if f[i][0].kind != 'ind': continue
            rest = [f[q] for q in range(len(f)) if q != i]
            o = _wrap(Q(1), list(b), rest, ind(cnot(f[i][0].args[0])))
            if len(o.t) != 1: continue
            (k2, (c2, m2)), = o.t.items()
            if k2 in e.t and e.t[k2][0] * c2 == c:
                b, f = _freshen(m)
                return e - Expr({k: (c, m)}) - o.scale(c) + norm_mono(c, list(b), [f[q] for q in range(len(f)) if q != i])
    return None

def assume_cond(d, c):
    """rewrite d knowing c"""
    if c.kind == 'eq':
        for vn in sorted(c.fv, reverse=True):
            at = _atoms.get(vn)
            if at is None or at.kind != 'v': continue
            lr = _lin_in(c.args[0], vn)
            if lr is None: continue
            val = lr[1].scale(-1 / lr[0])
            if at.isint and not is_int_expr(val): continue
            return renorm(subst(d, {vn: val}))
    return renorm(d)

def renorm(e):
    """re-simplify indicators under the current context"""
    if not e.inds: return e
    cache = {}
    return _renorm(e, cache)

def _renorm(e, cache):
    if not e.inds: return e
    r = cache.get(e.key)
    if r is not None: return r
    acc = ZERO
    for k, (c, m) in e.t.items():
        if not m.inds:
            acc = acc + Expr({k: (c, m)})
            continue
        b, f = _freshen(m)
        if any(a.inds and a.kind != 'ind' for a, x in f) and (b or any(a.kind == 'ind' for a, x in f)):
            n = 0
            for v, l in b:
                CTX.push(cmp_le(ZERO, atom(v))); CTX.push(cmp_lt(atom(v), l)); n += 2
            for a, x in f:
                if a.kind == 'ind': CTX.push(a.args[0]); n += 1
            sub = {}
            try: f = [(a, x) if a.kind == 'ind' or not a.inds else (rebuild(a.kind, tuple(_renorm_arg(y, sub) for y in a.args), a.isint), x) for a, x in f]
            finally:
                for _i in range(n): CTX.pop()
            g = [(a, x) for a, x in f if not isinstance(a, Expr)]
            extra = ONE
            for a, x in f:
                if isinstance(a, Expr): extra = extra * powe(a, x)
            f = g
        else: extra = None
        keep = []
        res = extra
        for a, x in f:
            if not a.inds:
                keep.append((a, x)); continue
            if a.kind == 'ind':
                cd = a.args[0]
                if cd.inds:
                    cd = csub_renorm(cd, cache)
                r = CTX.decide(cd)
                s = ONE if r is True else ZERO if r is False else ind(cd)
            else:
                args = tuple(_renorm_arg(y, cache) for y in a.args)
                s = rebuild(a.kind, args, a.isint)
            s = powe(s, x)
            res = s if res is None else res * s
        acc = acc + (norm_mono(c, list(b), keep) if res is None else _wrap(c, list(b), keep, res))
    cache[e.key] = acc
    return acc

def csub_renorm(c, cache):
    if not c.inds: return c
    if c.kind in ('le', 'lt', 'eq', 'ne'): return _normcmp(c.kind, _renorm(c.args[0], cache))
    if c.kind in ('b', 'nb'): return Cond(c.kind, (_renorm(c.args[0], cache),))
    if c.kind == 'and': return cand(*[csub_renorm(a, cache) for a in c.args])
    if c.kind == 'or': return cor(*[csub_renorm(a, cache) for a in c.args])
    return c

def _renorm_arg(y, cache):
    if isinstance(y, Expr): return _renorm(y, cache)
    if isinstance(y, Lam):
        if not y.inds: return y
        gs = [gensym() for _ in range(y.n)]
        return Lam(gs, _renorm(y(*[atom(g) for g in gs]), cache))
    if isinstance(y, Cond): return csub_renorm(y, cache)
    return y

def clear_pos_denoms(d):
    """multiply by positive quantities occurring as denominators (sign preserving)"""
    for _ in range(6):
        worst = {}
        for k, (c, m) in d.t.items():
            bn = set(v.key for v, _ in m.binders)
            for a, x in m.factors:
                if x < 0 and x.denominator == 1 and not (a.fv & bn) and (known_pos(a) or known_neg(a)):
                    worst[a.key] = (a, min(x, worst.get(a.key, (a, Q(0)))[1]))
        if not worst: return d
        a, x = worst[min(worst)]
        base = a.args[0] if a.kind == 'pw' else atom(a)
        acc = ZERO
        n = int(-x)
        if n % 2 and not known_pos(a): d = -d
        for k, (c, m) in d.t.items():
            y = Q(0)
            for b, z in m.factors:
                if b is a: y = z
            b_, f_ = _freshen(m)
            t = norm_mono(c, list(b_), [(p, q) for p, q in f_ if p is not a])
            if (n + y).denominator != 1: return d
            for _i in range(n + int(y)): t = t * base
            acc = acc + t
        d = acc
    return d

def clear_denoms(d):
    """multiply by the pw-denominators that occur (free of binders)"""
    for _ in range(6):
        worst = {}
        for k, (c, m) in d.t.items():
            bn = set(v.key for v, _ in m.binders)
            for a, x in m.factors:
                if a.kind == 'pw' and x < 0 and x.denominator == 1 and not (a.fv & bn):
                    worst[a.key] = (a, min(x, worst.get(a.key, (a, Q(0)))[1]))
        if not worst: return d
        kk = min(worst)
        a, x = worst[kk]
        base = a.args[0]
        acc = ZERO
        n = int(-x)
        for k, (c, m) in d.t.items():
            y = Q(0)
            for b, z in m.factors:
                if b is a: y = z
            b_, f_ = _freshen(m)
            t = norm_mono(c, list(b_), [(p, q) for p, q in f_ if p is not a])
            for _i in range(n + int(y)): t = t * base
            acc = acc + t
        d = acc
        if not d.t: return d
    return d
