"""P20: gradients of mixed linear/nonlinear Gaussian models."""
import numpy as np
import pyparticleest.models.mlnlg as mlnlg
import pyparticleest.utils.mlnlg_compute as pure
from contracts.stubs import subset, lived, agrees
import pyparticleest.utils.cmlnlg_compute as compiled
import scipy.linalg

TRUSTED = ['Derivatives are taken with the product and chain rules and d inv(A) = -inv(A) dA inv(A), d log det A = trace(inv(A) dA).']
ASSUMPTIONS = ['Machine arithmetic is treated as real arithmetic.',
               'The covariance of the initial nonlinear state is positive definite (parameter estimation needs its density).']
CONTRACTS = ['ck_initial', 'ck_initial_user', 'ck_logprod', 'ck_l2', 'ck_transition', 'ck_measurement']

class Dynamics(object):
    """matrices that are constants of the model or given for every particle, and their derivatives"""
    def g(self, names): return tuple([self.over[n] if n in self.over else None for n in names])
    def d(self, names): return tuple([self.grads[n] if n in self.grads else None for n in names])
    def get_nonlin_pred_dynamics(self, particles, u, t):
        self.asked = (u, t)
        return self.g(['Axi', 'fxi', 'Qxi'])
    def get_lin_pred_dynamics(self, particles, u, t):
        self.asked_z = (u, t)
        return self.g(['Az', 'fz', 'Qz'])
    def get_cross_covariance(self, particles, u, t):
        return self.g(['Qxiz'])[0]
    def get_meas_dynamics(self, particles, y, t):
        self.asked = t
        return (y,) + self.g('ChR')
    def get_pred_dynamics_grad(self, particles, u, t):
        self.asked_grad = (u, t)
        return self.d('AfQ')
    def get_meas_dynamics_grad(self, particles, y, t):
        self.asked_grad = t
        return self.d('ChR')

class Model(Dynamics, mlnlg.MixedNLGaussianSampledInitialGaussian):
    def __init__(self, v, J, over, grads, **kw):
        self.v = v; self.over = over; self.grads = grads; self.kw = kw
        mlnlg.MixedNLGaussianSampledInitialGaussian.__init__(self, **kw)
        self.set_params(np.zeros((J,)))
    def get_rb_initial_grad(self, xi0):
        self.asked_rb = xi0
        return self.d(['z0', 'P0']) if 'z0' in self.grads else mlnlg.MixedNLGaussianSampledInitialGaussian.get_rb_initial_grad(self, xi0)
    def get_xi_intitial_grad(self, N):
        return self.d(['xi0', 'Pxi0']) if 'xi0' in self.grads else mlnlg.MixedNLGaussianSampledInitialGaussian.get_xi_intitial_grad(self, N)

class UserModel(Dynamics, mlnlg.MixedNLGaussianSampled):
    """the initial distribution is supplied by the user"""
    def __init__(self, v, J, over, grads, **kw):
        self.v = v; self.over = over; self.grads = grads
        mlnlg.MixedNLGaussianSampled.__init__(self, **kw)
        self.set_params(np.zeros((J,)))
    def get_rb_initial(self, xi0):
        self.asked_rb = xi0
        return (self.over['z0'], self.over['P0'])
    def get_rb_initial_grad(self, xi0):
        self.asked_rb_grad = xi0
        return (self.grads['z0'], self.grads['P0'])

class FullUserModel(UserModel):
    def eval_logp_xi0(self, xil): return self.over['lxi0']
    def eval_logp_xi0_grad(self, xil): return self.grads['lxi0']

def sym(v, name, *shape):
    """derivatives of symmetric matrices"""
    a = v.arr(name, *shape)
    k = len(shape)
    return a + np.transpose(a, tuple(range(k - 2)) + (k - 1, k - 2))

def particles(v, name, N, lxi, lz):
    """nonlinear states; means, covariances and cross covariances of the linear ones"""
    xi = v.arr(name + '_xi', N, lxi); z = v.arr(name + '_z', N, lz); P = v.spd(name + '_P', lz, (N,)); M = v.arr(name + '_M', N, lz, lz)
    b = lxi + lz; c = b + lz * lz
    p = np.zeros((N, c + lz * lz))
    for i in range(N):
        p[i, :lxi] = xi[i]
        p[i, lxi:b] = z[i]
        p[i, b:c] = P[i].ravel()
        p[i, c:] = M[i].ravel()
    return p

def compare(v, value, valgrad, J):
    """value(e, j): value with every matrix moved e along its derivative for parameter j"""
    j = v.index('j', J)
    (val, grad) = valgrad()
    (v0, d) = v.derivative(lambda e: np.sum(value(e, j)))
    v.eq('value', np.sum(val), v0)
    v.eq('one component per parameter', len(grad), J)
    v.eq('partial derivative', np.ravel(grad)[j], d)

def each(N, x): return np.zeros((N,) + x.shape) + x

def use(m, names, *args):
    for n in names: getattr(m, 'eval_logp_' + n)(*[1.1 * a if isinstance(a, np.ndarray) else a for a in args])

def change(m, new):
    m.over = new.over
    for a in ('z0', 'Pz0', 'xi0', 'Pxi0'): setattr(m, a, getattr(new, a))
    m.set_dynamics(**dict([(n, new.kw[n]) for n in new.kw if n not in ('z0', 'Pz0', 'xi0', 'Pxi0')]))

def ck_initial(v):
    N = v.dim('N', 1, 3); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); J = v.dim('J', 1, 3)
    which = v.choose('depends on the parameters', ['nothing', 'linear part', 'nonlinear part', 'both'])
    now = {'xi0': v.arr('xi0', lxi, 1), 'Pxi0': v.spd('Pxi0', lxi), 'z0': v.arr('z0', lz, 1), 'Pz0': v.spd('Pz0', lz)}
    d = {}
    if which in ('linear part', 'both'):
        d['z0'] = v.arr('dz0', J, lz, 1); d['Pz0'] = sym(v, 'dPz0', J, lz, lz)
    if which in ('nonlinear part', 'both'):
        d['xi0'] = v.arr('dxi0', J, lxi, 1); d['Pxi0'] = sym(v, 'dPxi0', J, lxi, lxi)
    grads = {}
    for n in d: grads['P0' if n == 'Pz0' else n] = each(N, d[n])
    part = particles(v, 'part', N, lxi, lz); t = v.tag('t')
    kw = {'Axi': v.arr('Axi', lxi, lz), 'Az': v.arr('Az', lz, lz), 'Qxi': v.spd('Qxi', lxi), 'Qz': v.spd('Qz', lz)}
    m = lived(v, now, lambda x: Model(v, J, {}, grads, **x, **kw), lambda m: use(m, ['x0_val_grad', 'x0'], part, t), change)
    s = v.snap((part, m.xi0, m.Pxi0, m.z0, m.Pz0, grads))
    def value(e, j):
        x = {}
        for n in now: x[n] = now[n] + e * d[n][j] if n in d else now[n]
        return Model(v, J, {}, {}, **x, **kw).eval_logp_x0(part, t)
    compare(v, value, lambda: m.eval_logp_x0_val_grad(part, t), J)
    agrees(v, 'value without gradient', lambda: m.eval_logp_x0(part, t), value(0.0, 0))
    v.unchanged('frame', (part, m.xi0, m.Pxi0, m.z0, m.Pz0, grads), s)

def ck_initial_user(v):
    """distribution of the initial linear states given for each particle by the user"""
    N = v.dim('N', 1, 3); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); J = v.dim('J', 1, 3)
    which = v.choose('density of the nonlinear state', ['constant', 'given'])
    cls = FullUserModel if which == 'given' else UserModel
    now = {'z0': v.arr('z0', N, lz, 1), 'P0': v.spd('P0', lz, (N,))}
    grads = {'z0': v.arr('dz0', N, J, lz, 1), 'P0': sym(v, 'dP0', N, J, lz, lz)}
    if which == 'given':
        now['lxi0'] = v.arr('lxi0', N)
        dl = v.arr('dlxi0', N, J)
        grads['lxi0'] = np.sum(dl, 0).reshape((-1, 1))
    part = particles(v, 'part', N, lxi, lz); t = v.tag('t')
    kw = {'lxi': lxi, 'lz': lz, 'Axi': v.arr('Axi', lxi, lz), 'Az': v.arr('Az', lz, lz), 'Qxi': v.spd('Qxi', lxi), 'Qz': v.spd('Qz', lz)}
    m = cls(v, J, now, grads, **kw)
    s = v.snap((part, now, grads))
    def value(e, j):
        x = {'z0': now['z0'] + e * grads['z0'][:, j], 'P0': now['P0'] + e * grads['P0'][:, j]}
        if which == 'given': x['lxi0'] = now['lxi0'] + e * dl[:, j]
        return cls(v, J, x, {}, **kw).eval_logp_x0(part, t)
    compare(v, value, lambda: m.eval_logp_x0_val_grad(part, t), J)
    v.eq('asks for these nonlinear states', np.reshape(m.asked_rb, (N, lxi)), part[:, :lxi])
    v.eq('asks for the derivatives at these nonlinear states', np.reshape(m.asked_rb_grad, (N, lxi)), part[:, :lxi])
    v.unchanged('frame', (part, now, grads), s)

def stack(a, b): return np.concatenate((a, b), len(a.shape) - 2)

def ck_logprod(v):
    """derivative of logdet(A) + trace(inv(A) B)"""
    n = v.dim('n', 1, 3)
    mod = {'compiled': compiled, 'pure Python': pure}[v.choose('implementation', ['compiled', 'pure Python'])]
    A = v.spd('A', n); B = v.arr('B', n, n); dA = sym(v, 'dA', n, n); dB = v.arr('dB', n, n)
    s = v.snap((A, B, dA, dB))
    r = mod.compute_logprod_derivative(scipy.linalg.cho_factor(A), dA, B, dB)
    def f(e):
        Ae = A + e * dA
        return np.linalg.slogdet(Ae)[1] + np.trace(np.linalg.inv(Ae).dot(B + e * dB))
    v.eq('derivative', r, v.derivative(f)[1])
    v.unchanged('arguments', (A, B, dA, dB), s)

def ck_l2(v):
    """second moments of the prediction error, and their derivatives"""
    N = v.dim('N', 1, 3); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); J = v.dim('J', 1, 3)
    which = v.choose('depends on the parameters', ['nothing', 'A', 'f', 'both'])
    how = v.choose('matrices', ['arrays', 'tuples', 'lists', 'pure Python'])
    if how == 'pure Python': v.patch(mlnlg, 'mlnlg_compute', pure)
    b = lxi + lz
    m = Model(v, J, {}, {}, xi0=np.zeros((lxi, 1)), z0=np.zeros((lz, 1)))
    xin = v.arr('xin', N, lxi, 1); zn = v.arr('zn', N, lz, 1); zl = v.arr('zl', N, lz, 1)
    Pn = v.spd('Pn', lz, (N,)); Pl = v.spd('Pl', lz, (N,)); M = v.arr('M', N, lz, lz)
    f = v.arr('f', N, b, 1); fg = v.arr('df', N, J, b, 1) if which in ('f', 'both') else None
    A0 = v.arr('A', N, b, lz); Ag = v.arr('dA', N, J, b, lz)
    A = [x for x in A0] if how == 'lists' else A0
    if which not in ('A', 'both'): Ag = None
    fs = f
    if how == 'tuples': fs = N * (f[0],)
    elif how == 'lists': fs = [x for x in f]
    s = v.snap((xin, zn, Pn, zl, Pl, A0, f, M, fg, Ag))
    i = v.index('i', N); j = v.index('j', J)
    def spec(e):
        Ai = A[i] + e * Ag[i, j] if Ag is not None else A[i]
        fi = fs[i] + e * fg[i, j] if fg is not None else fs[i]
        p = np.vstack((xin[i], zn[i])) - fi - Ai.dot(zl[i])
        G = Ai.dot(M[i])        # covariance of A z and the next linear states
        r = p.dot(p.T) + Ai.dot(Pl[i]).dot(Ai.T)
        r[:, lxi:] -= G
        r[lxi:, :] -= G.T
        r[lxi:, lxi:] += Pn[i]
        return r
    (l0, dl) = v.derivative(spec)
    v.eq('second moments', m.calc_l2(xin, zn, Pn, zl, Pl, A, fs, M)[i], l0)
    (r, d) = m.calc_l2_grad(xin, zn, Pn, zl, Pl, A, fs, M, fg, Ag)
    v.eq('second moments', r[i], l0)
    v.eq('derivatives', d[i, j], dl)
    v.unchanged('frame', (xin, zn, Pn, zl, Pl, A0, f, M, fg, Ag), s)

def ck_transition(v):
    N = v.dim('N', 1, 3); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); J = v.dim('J', 1, 3)
    which = subset(v, 'depends on the parameters', 'AfQ', ['', 'A', 'f', 'Q', 'AfQ'])
    per = subset(v, 'per particle', 'AfQ', ['', '-', 'AfQ', 'A', 'fQ'])
    corr = per != '-' if v.symbolic else ('Q' in per or v.choose('correlated', [False, True]))
    def mk(name, *shape): return v.arr(name, *shape)
    x = {}
    for n in 'Af':
        b = (N,) if n in per else ()
        w = lz if n == 'A' else 1
        x[n + 'xi'] = v.arr(n + 'xi', *(b + (lxi, w))); x[n + 'z'] = v.arr(n + 'z', *(b + (lz, w)))
    b = (N,) if 'Q' in per else ()
    if v.symbolic: (x['Qxi'], x['Qz'], x['Qxiz']) = (v.spd('Qxi', lxi, b), v.spd('Qz', lz, b), v.arr('Qxiz', *(b + (lxi, lz))))
    else:
        Q = v.spd('Q', lxi + lz, b)
        (x['Qxi'], x['Qz'], x['Qxiz']) = (Q[..., :lxi, :lxi].copy(), Q[..., lxi:, lxi:].copy(), Q[..., :lxi, lxi:].copy())
    dx = {}; grads = {}
    for n in 'Af':
        if n not in which: continue
        b = (N,) if n in per else ()
        w = lz if n == 'A' else 1
        dx[n + 'xi'] = v.arr('d' + n + 'xi', *(b + (J, lxi, w))); dx[n + 'z'] = v.arr('d' + n + 'z', *(b + (J, lz, w)))
        g = stack(dx[n + 'xi'], dx[n + 'z'])
        grads[n] = g if n in per else each(N, g)
    if 'Q' in which:
        b = (N,) if 'Q' in per else ()
        c = corr
        dx['Qxi'] = sym(v, 'dQxi', *(b + (J, lxi, lxi))); dx['Qz'] = sym(v, 'dQz', *(b + (J, lz, lz)))
        if c: dx['Qxiz'] = v.arr('dQxiz', *(b + (J, lxi, lz)))
        k = len(b) + 1
        X = dx['Qxiz'] if c else np.zeros(b + (J, lxi, lz))
        Xt = np.transpose(X, tuple(range(k)) + (k + 1, k))
        g = stack(np.concatenate((dx['Qxi'], X), k + 1), np.concatenate((Xt, dx['Qz']), k + 1))
        grads['Q'] = g if 'Q' in per else each(N, g)
    if not corr: x['Qxiz'] = None
    part = particles(v, 'part', N, lxi, lz); nxt = particles(v, 'next', N, lxi, lz); t = v.tag('t'); u = v.tag('u')
    init = {'xi0': v.arr('xi0', lxi, 1), 'z0': v.arr('z0', lz, 1)}
    other = {}
    def model(x, grads):
        const = {}; over = {}
        for n in x:
            if n[0] in per: over[n] = x[n]
            else: const[n] = x[n]
        return Model(v, J, over, grads, **init, **const)
    # contract of calc_l2 and calc_l2_grad (ck_l2): some l2, and its derivative
    L = v.arr('l2', N, lxi + lz, lxi + lz); DL = v.arr('dl2', N, J, lxi + lz, lxi + lz) if 'A' in grads or 'f' in grads else np.zeros((N, J, lxi + lz, lxi + lz))
    st = {'moved': None}
    def args(xin, zn, Pn, zl, Pl, A, f, M):
        b = lxi + lz
        for (w, r) in ((part, (zl, Pl)), (nxt, (zn, Pn))):
            v.eq('linear means', np.reshape(r[0], (N, lz)), w[:, lxi:b])
            v.eq('linear covariances', np.reshape(r[1], (N, lz * lz)), w[:, b:b + lz * lz])
        v.eq('next nonlinear states', np.reshape(xin, (N, lxi)), nxt[:, :lxi])
        v.eq('cross covariances', np.reshape(M, (N, lz * lz)), part[:, b + lz * lz:])
        for n in 'Af':
            i = v.index('i', N)
            a = x[n + 'xi'][i] if n in per else x[n + 'xi']; c = x[n + 'z'][i] if n in per else x[n + 'z']
            if st['moved'] is not None and n in grads:
                (e, j) = st['moved']
                d = grads[n][i, j]
                a = a + e * d[:lxi]; c = c + e * d[lxi:]
            v.eq(n, (A if n == 'A' else f)[i], stack(a, c))
    def l2(self, xin, zn, Pn, zl, Pl, A, f, M):
        args(xin, zn, Pn, zl, Pl, A, f, M)
        if st['moved'] is None: return L.copy()
        (e, j) = st['moved']
        return L + e * DL[:, j]
    def l2_grad(self, xin, zn, Pn, zl, Pl, A, f, M, f_grad, A_grad):
        args(xin, zn, Pn, zl, Pl, A, f, M)
        v.eq('derivatives of f', f_grad, grads['f'] if 'f' in grads else None)
        v.eq('derivatives of A', A_grad, grads['A'] if 'A' in grads else None)
        return (L.copy(), DL.copy())
    v.replace('pyparticleest.models.mlnlg.MixedNLGaussianSampled.calc_l2', l2)
    v.replace('pyparticleest.models.mlnlg.MixedNLGaussianSampled.calc_l2_grad', l2_grad)
    m = lived(v, x, lambda x: model(x, grads), lambda m: use(m, ['xnext_val_grad', 'xnext'], part, nxt, u, t), change)
    s = v.snap((part, nxt, x, grads))
    def value(e, j):
        st['moved'] = (e, j)
        y = {}
        for n in x:
            if n not in dx: y[n] = x[n]
            elif n[0] in per: y[n] = x[n] + e * dx[n][:, j]
            else: y[n] = x[n] + e * dx[n][j]
        return model(y, {}).eval_logp_xnext(part, nxt, u, t)
    compare(v, value, lambda: m.eval_logp_xnext_val_grad(part, nxt, u, t), J)
    agrees(v, 'value without gradient', lambda: m.eval_logp_xnext(part, nxt, u, t), value(0.0, 0))
    v.eq('asks for this step', (m.asked, m.asked_z, m.asked_grad), ((u, t), (u, t), (u, t)))
    v.unchanged('frame', (part, nxt, x, grads), s)

def ck_measurement(v):
    N = v.dim('N', 1, 3); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 2); J = v.dim('J', 1, 3)
    which = subset(v, 'depends on the parameters', 'ChR', ['', 'C', 'h', 'R', 'ChR'])
    per = subset(v, 'per particle', 'ChR', ['', 'ChR', 'h', 'CR'])
    sh = {'C': (ny, lz), 'h': (ny, 1)}
    x = {}; dx = {}; grads = {}
    for n in 'ChR':
        b = (N,) if n in per else ()
        x[n] = v.spd('R', ny, b) if n == 'R' else v.arr(n, *(b + sh[n]))
        if n in which:
            dx[n] = sym(v, 'dR', *(b + (J, ny, ny))) if n == 'R' else v.arr('d' + n, *(b + (J,) + sh[n]))
            grads[n] = dx[n] if n in per else each(N, dx[n])
    part = particles(v, 'part', N, lxi, lz); t = v.tag('t'); y = v.arr('y', ny, 1)
    init = {'xi0': v.arr('xi0', lxi, 1), 'z0': v.arr('z0', lz, 1), 'Axi': v.arr('Axi', lxi, lz), 'Az': v.arr('Az', lz, lz),
            'Qxi': v.spd('Qxi', lxi), 'Qz': v.spd('Qz', lz)}
    def model(x, grads):
        const = {}; over = {}
        for n in x:
            if n in per: over[n] = x[n]
            else: const[n] = x[n]
        return Model(v, J, over, grads, **init, **const)
    m = lived(v, x, lambda x: model(x, grads), lambda m: use(m, ['y_val_grad', 'y'], part, y, t), change)
    s = v.snap((part, y, x, grads))
    def value(e, j):
        z = {}
        for n in x:
            if n not in dx: z[n] = x[n]
            elif n in per: z[n] = x[n] + e * dx[n][:, j]
            else: z[n] = x[n] + e * dx[n][j]
        return model(z, {}).eval_logp_y(part, y, t)
    compare(v, value, lambda: m.eval_logp_y_val_grad(part, y, t), J)
    agrees(v, 'value without gradient', lambda: m.eval_logp_y(part, y, t), value(0.0, 0))
    v.eq('asks for this step', (m.asked, m.asked_grad), (t, t))
    v.unchanged('frame', (part, y, x, grads), s)
CONF = {'budget': 200, 'split': {'ck_l2': 8, 'ck_transition': 4, 'ck_measurement': 3}}
