"""P19: gradients of linear time-varying models."""
import numpy as np
import pyparticleest.models.ltv as ltv
from contracts.stubs import subset, lived, agrees

TRUSTED = ['Derivatives are taken with the product and chain rules and d inv(A) = -inv(A) dA inv(A), d log det A = trace(inv(A) dA).']
ASSUMPTIONS = ['Machine arithmetic is treated as real arithmetic.']
CONF = {'budget': 200, 'split': {'ck_measurement': 3}}
CONTRACTS = ['ck_initial', 'ck_transition', 'ck_measurement']

class Model(ltv.LTV):
    """constant matrices, or matrices given per step, and their derivatives"""
    def __init__(self, v, J, z0, P0, over={}, grads={}, **kw):
        self.v = v; self.over = over; self.grads = grads; self.kw = kw
        ltv.LTV.__init__(self, z0, P0, **kw)
        self.params = np.zeros((J,))
    def g(self, names): return tuple([self.over[n] if n in self.over else None for n in names])
    def d(self, names): return tuple([self.grads[n] if n in self.grads else None for n in names])
    def get_pred_dynamics(self, u, t):
        self.asked = (u, t)
        return self.g('AfQ')
    def get_meas_dynamics(self, y, t):
        self.asked = t
        return (y,) + self.g('ChR')
    def get_pred_dynamics_grad(self, u, t): return self.d('AfQ')
    def get_meas_dynamics_grad(self, y, t): return self.d('ChR')
    def get_initial_grad(self): return self.d(('z0', 'P0'))

def split(v, J, z0, P0, per, now, other, grads, rest):
    """model given the matrices named in per at every step (the constants are then decoys)"""
    over = {}; const = {}
    for n in now:
        if n in per: over[n] = now[n]
        const[n] = other[n] if n in per else now[n]
    return Model(v, J, z0, P0, over, grads, **rest, **const)

def sym(v, name, J, n):
    """derivative of a symmetric matrix, for each parameter"""
    a = v.arr(name, J, n, n)
    return a + np.transpose(a, (0, 2, 1))

def particles(v, name, N, lz):
    """means, covariances and cross covariances"""
    z = v.arr(name + '_z', N, lz); P = v.spd(name + '_P', lz, (N,)); M = v.arr(name + '_M', N, lz, lz)
    p = np.zeros((N, lz + 2 * lz * lz))
    for i in range(N):
        p[i, :lz] = z[i]
        p[i, lz:lz + lz * lz] = P[i].ravel()
        p[i, lz + lz * lz:] = M[i].ravel()
    return p

def moved(x, dx, e, j): return x if dx is None else x + e * dx[j]

def compare(v, value, valgrad, J):
    """value(e, j): value with every matrix moved e along its derivative for parameter j"""
    j = v.index('j', J)
    (val, grad) = valgrad()
    (v0, d) = v.derivative(lambda e: np.sum(value(e, j)))
    v.eq('value', np.sum(val), v0)
    v.eq('one component per parameter', len(grad), J)
    v.eq('partial derivative', np.ravel(grad)[j], d)

def use(m, names, *args):
    for n in names: getattr(m, 'eval_logp_' + n)(*[1.1 * a if isinstance(a, np.ndarray) else a for a in args])

def change(m, new):
    m.over = new.over
    for a in ('z0', 'P0'): setattr(m, a, getattr(new, a))
    m.kf.set_dynamics(**dict([({'f': 'f_k', 'h': 'h_k'}.get(n, n), new.kw[n]) for n in new.kw]))

def ck_initial(v):
    N = v.dim('N', 1, 3); lz = v.dim('lz', 1, 3); J = v.dim('J', 1, 3)
    which = v.choose('depends on the parameters', ['nothing', 'z0', 'P0', 'both'])
    z0 = v.arr('z0', lz, 1); P0 = v.spd('P0', lz)
    grads = {}
    if which in ('z0', 'both'): grads['z0'] = v.arr('dz0', J, lz, 1)
    if which in ('P0', 'both'): grads['P0'] = sym(v, 'dP0', J, lz)
    part = particles(v, 'part', N, lz); t = v.tag('t')
    kw = {'A': v.arr('A', lz, lz), 'Q': v.spd('Q', lz)}
    m = lived(v, {'z0': z0, 'P0': P0}, lambda x: Model(v, J, x['z0'], x['P0'], {}, grads, **kw), lambda m: use(m, ['x0_val_grad', 'x0'], part, t), change)
    s = v.snap((part, m))
    def value(e, j):
        return Model(v, J, moved(z0, m.d(['z0'])[0], e, j), moved(P0, m.d(['P0'])[0], e, j), **kw).eval_logp_x0(part, t)
    compare(v, value, lambda: m.eval_logp_x0_val_grad(part, t), J)
    agrees(v, 'value without gradient', lambda: m.eval_logp_x0(part, t), value(0.0, 0))
    v.unchanged('frame', (part, m), s)

def ck_transition(v):
    N = v.dim('N', 1, 3); lz = v.dim('lz', 1, 3); J = v.dim('J', 1, 3)
    which = subset(v, 'depends on the parameters', 'AfQ', ['', 'A', 'f', 'Q', 'AfQ'])
    per = subset(v, 'given per step', 'AfQ', ['', 'AfQ'])
    now = {'A': v.arr('A', lz, lz), 'f': v.arr('f', lz, 1), 'Q': v.spd('Q', lz)}
    other = {'A': v.arr('A_c', lz, lz), 'f': v.arr('f_c', lz, 1), 'Q': v.spd('Q_c', lz)}
    grads = {}
    if 'A' in which: grads['A'] = v.arr('dA', J, lz, lz)
    if 'f' in which: grads['f'] = v.arr('df', J, lz, 1)
    if 'Q' in which: grads['Q'] = sym(v, 'dQ', J, lz)
    z0 = v.arr('z0', lz, 1); P0 = v.spd('P0', lz)
    part = particles(v, 'part', N, lz); nxt = particles(v, 'next', N, lz); t = v.tag('t'); u = v.tag('u')
    def model(now, grads): return split(v, J, z0, P0, per, now, other, grads, {})
    m = lived(v, now, lambda x: model(x, grads), lambda m: use(m, ['xnext_val_grad', 'xnext'], part, nxt, u, t), change)
    s = v.snap((part, nxt, now, grads))
    def value(e, j):
        d = {}
        for n in 'AfQ': d[n] = moved(now[n], grads[n] if n in grads else None, e, j)
        return model(d, {}).eval_logp_xnext(part, nxt, u, t)
    compare(v, value, lambda: m.eval_logp_xnext_val_grad(part, nxt, u, t), J)
    agrees(v, 'value without gradient', lambda: m.eval_logp_xnext(part, nxt, u, t), value(0.0, 0))
    v.eq('asks for this step', m.asked, (u, t))
    v.unchanged('frame', (part, nxt, now, grads), s)

def ck_measurement(v):
    N = v.dim('N', 1, 3); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 2); J = v.dim('J', 1, 3)
    which = subset(v, 'depends on the parameters', 'ChR', ['', 'C', 'h', 'R', 'ChR'])
    per = subset(v, 'given per step', 'ChR', ['', 'ChR'])
    now = {'C': v.arr('C', ny, lz), 'h': v.arr('h', ny, 1), 'R': v.spd('R', ny)}
    other = {'C': v.arr('C_c', ny, lz), 'h': v.arr('h_c', ny, 1), 'R': v.spd('R_c', ny)}
    grads = {}
    if 'C' in which: grads['C'] = v.arr('dC', J, ny, lz)
    if 'h' in which: grads['h'] = v.arr('dh', J, ny, 1)
    if 'R' in which: grads['R'] = sym(v, 'dR', J, ny)
    z0 = v.arr('z0', lz, 1); P0 = v.spd('P0', lz); A = v.arr('A', lz, lz); Q = v.spd('Q', lz)
    part = particles(v, 'part', N, lz); t = v.tag('t'); y = v.arr('y', ny, 1)
    if v.choose('measurement', ['column', 'flat']) == 'flat': y = y[:, 0]
    def model(now, grads): return split(v, J, z0, P0, per, now, other, grads, {'A': A, 'Q': Q})
    m = lived(v, now, lambda x: model(x, grads), lambda m: use(m, ['y_val_grad', 'y'], part, y, t), change)
    s = v.snap((part, y, now, grads))
    def value(e, j):
        d = {}
        for n in 'ChR': d[n] = moved(now[n], grads[n] if n in grads else None, e, j)
        return model(d, {}).eval_logp_y(part, y, t)
    compare(v, value, lambda: m.eval_logp_y_val_grad(part, y, t), J)
    agrees(v, 'value without gradient', lambda: m.eval_logp_y(part, y, t), value(0.0, 0))
    v.eq('asks for this step', m.asked, t)
    v.unchanged('frame', (part, y, now, grads), s)
