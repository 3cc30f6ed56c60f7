"""z3 back end: decides conditions over integer/real terms (uninterpreted atoms become constants)."""
import sys, time, re
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3
from . import terms as T

TIMEOUT = 2000

def conv(e, env):
    s = None
    terms = []
    for k in sorted(e.t):
        c, m = e.t[k]
        if m.binders:
            f = conv_sum(m, env)
        else:
            f = []
            for a, x in m.factors:
                v = conv_atom(a, env)
                if x.denominator == 1 and x > 0:
                    for _ in range(int(x)): f.append(v)
                else:
                    f.append(powvar(a, x, env))
        t = None
        if c.denominator == 1:
            t = z3.IntVal(c.numerator)
        else:
            t = z3.Q(c.numerator, c.denominator)
        if f:
            p = f[0]
            for q in f[1:]: p = p * q
            t = p if c == 1 else t * p
        terms.append(t)
    if not terms: return z3.IntVal(0)
    s = terms[0]
    for t in terms[1:]: s = s + t
    return s

def powvar(a, x, env):
    """a power that is not a natural number; for b >= 1: b^x <= 1 if x < 0, b^x >= 1 if x > 0; b^x > 0 for b > 0; 1^x = 1"""
    key = 'P%s^%s' % (a.key, x)
    new = key not in env
    v = atomvar(key, False, env)
    if new and x.denominator > 2:
        b = conv(a.args[0], env) if a.kind == 'pw' else conv_atom(a, env)
        env.setdefault('#side', []).append(z3.And(z3.Implies(b > 0, v > 0), z3.Implies(b == 1, v == 1),
                                                  z3.Implies(b >= 1, v <= 1 if x < 0 else v >= 1)))
    return v

def conv_sum(m, env):
    """an opaque sum, factors that do not depend on the summation variables taken out; a count of indices with a property
    lies in [0, n], and below n if the last index lacks it; a sum of positive terms is positive"""
    bn = set(v.key for v, _ in m.binders)
    out = [(a, x) for a, x in m.factors if not (a.fv & bn)]
    if out and any(not (a.fv & bn) for a, x in out):
        core = T.norm_mono(T.Q(1), list(m.binders), [(a, x) for a, x in m.factors if a.fv & bn])
        if len(core.t) == 1:
            (k, (c, m2)), = core.t.items()
            if c == 1 and m2.binders and len(m2.binders) == len(m.binders):
                r = []
                for a, x in out:
                    v = conv_atom(a, env)
                    if x.denominator == 1 and x > 0: r += [v] * int(x)
                    else: r.append(powvar(a, x, env))
                return r + [sumvar(m2, env)]
    return [sumvar(m, env)]

def sumvar(m, env):
    key = 'S' + m.key
    if key in env: return env[key]
    cnt = len(m.binders) == 1 and len(m.factors) == 1 and m.factors[0][0].kind == 'ind'
    v = atomvar(key, cnt, env)
    side = env.setdefault('#side', [])
    if len(m.binders) == 1 and all(T.known_pos(a) for a, x in m.factors):
        side.append(z3.Implies(conv(m.binders[0][1], env) >= 1, v > 0))
        side.append(z3.Implies(conv(m.binders[0][1], env) >= 0, v >= 0))
    if cnt and env.get('#depth', 0) < 2:
        g, n = m.binders[0]
        env['#depth'] = env.get('#depth', 0) + 1
        nn = conv(n, env)
        side.append(z3.Implies(nn >= 0, z3.And(v >= 0, v <= nn)))
        last = T.csubst(m.factors[0][0].args[0], {g.key: n - 1})
        side.append(z3.Implies(z3.And(nn >= 1, z3.Not(conv_cond(last, env))), v <= nn - 1))
        env['#depth'] -= 1
    return v

def atomvar(key, isint, env):
    if key not in env:
        env[key] = z3.Int(key) if isint else z3.Real(key)
    return env[key]

def conv_atom(a, env):
    if a.kind == 'ind':
        return z3.If(conv_cond(a.args[0], env), z3.IntVal(1), z3.IntVal(0))
    if a.kind == 'fn' and a.args[0] == 'fdiv' and T.is_int_expr(a.args[1]) and T.is_int_expr(a.args[2]):
        x = conv(a.args[1], env); y = conv(a.args[2], env)
        v = atomvar(a.key, True, env)
        env.setdefault('#side', []).append(z3.Implies(y > 0, z3.And(v * y <= x, x < v * y + y)))
        return v
    v = atomvar(a.key, a.isint, env)
    if a.kind == 'maxr' and env.get('#depth', 0) < 2:      # first and last element are at most the maximum
        env['#depth'] = env.get('#depth', 0) + 1
        n = a.args[0]
        for i in (T.ZERO, n - 1):
            env.setdefault('#side', []).append(z3.Implies(conv(n, env) >= 1, conv(a.args[1](i), env) <= v))
        env['#depth'] -= 1
    if a.kind == 'exp' or T.known_pos(a):
        env.setdefault('#side', []).append(v > 0)
    if a.kind == 'app':
        b = T.CTX.flags.get(a.args[0])
        if b:
            for f in b:
                if isinstance(f, tuple) and f[0] == 'range':
                    env.setdefault('#side', []).append(z3.And(conv(f[1], env) <= v, v < conv(f[2], env)))
                if isinstance(f, tuple) and f[0] in ('pd', 'psd') and a.args[1 + f[1]].key == a.args[2 + f[1]].key:
                    env.setdefault('#side', []).append(v > 0 if f[0] == 'pd' else v >= 0)
                if f == 'nonneg':
                    env.setdefault('#side', []).append(v >= 0)
                if f == 'lt1':
                    env.setdefault('#side', []).append(v < 1)
    return v

def conv_cond(c, env):
    k = c.kind
    if k == 'T': return z3.BoolVal(True)
    if k == 'F': return z3.BoolVal(False)
    if k in ('le', 'lt', 'eq', 'ne'):
        x = conv(c.args[0], env)
        return {'le': x <= 0, 'lt': x < 0, 'eq': x == 0, 'ne': x != 0}[k]
    if k == 'b': return conv(c.args[0], env) != 0
    if k == 'nb': return conv(c.args[0], env) == 0
    if k == 'and': return z3.And(*[conv_cond(a, env) for a in c.args])
    if k == 'or': return z3.Or(*[conv_cond(a, env) for a in c.args])

def relevant(ctx, conds, extra=()):
    """assumptions (and extra facts) transitively sharing variables with conds"""
    fv = set()
    for c in conds: fv |= c.fv
    out = []
    rest = list(ctx.assume) + list(extra)
    while True:
        nr = []
        ch = False
        for a in rest:
            if not a.fv or not fv.isdisjoint(a.fv):
                out.append(a)
                fv |= a.fv
                ch = True
            else:
                nr.append(a)
        rest = nr
        if not ch: break
    return out

_GEN = re.compile('%[0-9]+')
def canonical(conds):
    """text of the conditions up to the names of generated variables (None if a name may be hidden in a digest)"""
    for c in conds:
        if '~' in c.key and any(x[0] == '%' for x in c.fv): return '|'.join(c.key for c in conds)
    m = {}
    def ren(x):
        k = x.group()
        if k not in m: m[k] = '%%%d' % len(m)
        return m[k]
    return '&' + _GEN.sub(ren, '|'.join(c.key for c in conds))

def _solver(ctx, conds):
    s = z3.Solver()
    s.set('timeout', TIMEOUT)
    env = {}
    for c in conds: s.add(conv_cond(c, env))
    return s, env

def _check(ctx, s):
    t0 = time.time()
    ctx.stats['z3'] += 1
    r = s.check()
    ctx.stats['z3_time'] += time.time() - t0
    return r

def decide(ctx, c, extra=()):
    rel = relevant(ctx, [c], extra)
    n = T.cnot(c)
    for a in rel:
        if a.key == c.key: return True
        if a.key == n.key: return False
    key = canonical(rel + [c])
    if key in ctx.qcache: return ctx.qcache[key]
    s, env = _solver(ctx, rel)
    z = conv_cond(c, env)
    for x in env.get('#side', []): s.add(x)
    r = None
    s.push(); s.add(z3.Not(z))
    if _check(ctx, s) == z3.unsat: r = True
    s.pop()
    if r is None:
        s.add(z)
        if _check(ctx, s) == z3.unsat: r = False
    ctx.qcache[key] = r
    return r

def unsat(ctx, conds):
    conds = list(conds)
    rel = relevant(ctx, conds)
    key = 'U' + canonical(rel + conds) + '#%d' % len(conds)
    if key in ctx.qcache: return ctx.qcache[key]
    s, env = _solver(ctx, rel + conds)
    for x in env.get('#side', []): s.add(x)
    r = _check(ctx, s) == z3.unsat
    ctx.qcache[key] = r
    return r

def feasible(ctx):
    s = z3.Solver(); s.set('timeout', TIMEOUT)
    env = {}
    for c in ctx.assume: s.add(conv_cond(c, env))
    for x in env.get('#side', []): s.add(x)
    return s.check() != z3.unsat

_LV = []
def lowvar_lemmas():
    """facts about systematic resampling used by v.lowvar: index_k = #{m < N: c_m < (k+U)/n} for a non-decreasing cdf c
    with c_{N-1} = 1 and 0 < U < 1"""
    if _LV: return _LV
    def valid(pre, post):
        s = z3.Solver(); s.set('timeout', 20000)
        for p in pre: s.add(p)
        s.add(z3.Not(post))
        return s.check() == z3.unsat
    Int, Real, If, And, Or, Implies = z3.Int, z3.Real, z3.If, z3.And, z3.Or, z3.Implies
    c = z3.Function('c', z3.IntSort(), z3.RealSort())
    N, m, j, S = z3.Ints('N m j S')
    u = Real('u')
    mono = lambda a, b: Implies(And(0 <= a, a <= b, b < N), c(a) <= c(b))
    inv = lambda m, S: And(0 <= S, S <= m, Implies(S < m, c(S) >= u), Implies(S > 0, c(S - 1) < u))
    _LV.append(('count of smaller cdf values, base', valid([N >= 1], inv(z3.IntVal(0), z3.IntVal(0)))))
    _LV.append(('count of smaller cdf values, step', valid([0 <= m, m < N, inv(m, S), mono(S, m)], inv(m + 1, S + If(c(m) < u, 1, 0)))))
    J = Int('J')
    pre = [N >= 1, inv(N, J), c(N - 1) == 1, u < 1]
    _LV.append(('index is valid', valid(pre, And(0 <= J, J < N))))
    _LV.append(('index j iff u in (c_{j-1}, c_j]', valid(pre + [0 <= j, j < N, mono(J, j - 1), mono(j, J - 1)],
                (J == j) == And(c(j) >= u, Or(j == 0, c(j - 1) < u)))))
    S2 = Int('S2'); u2 = Real('u2')
    _LV.append(('non-decreasing in u', valid([S <= S2, u <= u2], S + If(c(m) < u, 1, 0) <= S2 + If(c(m) < u2, 1, 0))))
    K, n, p, q, cnt = z3.Ints('K n p q cnt')
    a, b, U, na, nb = z3.Reals('a b U na nb')
    mx = lambda x, y: If(x >= y, x, y); mn = lambda x, y: If(x <= y, x, y)
    P = na - U; Qq = nb - U
    fl = [p <= P, P < p + 1, q <= Qq, Qq < q + 1]
    I2 = lambda K, cnt: cnt == mx(0, mn(K, q + 1) - (p + 1))
    base = fl + [0 < U, U < 1, 0 <= na, na <= nb, n >= 1, nb <= n]
    _LV.append(('points in an interval, base', valid(base, I2(z3.IntVal(0), z3.IntVal(0)))))
    _LV.append(('points in an interval, step', valid(base + [0 <= K, K < n, I2(K, cnt)],
                I2(K + 1, cnt + If(And(P < z3.ToReal(K), z3.ToReal(K) <= Qq), 1, 0)))))
    _LV.append(('number of selections within one of n*p', valid(base + [I2(n, cnt)],
                And(z3.ToReal(cnt) - (nb - na) < 1, (nb - na) - z3.ToReal(cnt) < 1))))
    _LV.append(('first interval has no lower end', valid(base + [na == 0, K >= 0], P < z3.ToReal(K))))
    return _LV
