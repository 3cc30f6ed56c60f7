"""P17: marginalised backward recursion: the statistics carried backwards are the exact quadratic log-likelihood of the future."""
import numpy as np
import pyparticleest.models.mlnlg as mlnlg
from contracts.stubs import logn, Step, subset
from contracts import c16
from contracts.rbps import ck_forward, ck_backward, ck_forward_any, ck_backward_any
from contracts.c16 import linear, smoothed, particles, covariances, dyn, cond, marg, COMBOS

class Model(mlnlg.MixedNLGaussianMarginalizedInitialGaussian):
    def __init__(self, v, per, **kw):
        self.v = v
        self.per = per
        mlnlg.MixedNLGaussianMarginalizedInitialGaussian.__init__(self, **kw)

    def mat(self, name, particles, u, t):
        if name not in self.per: return None
        return dyn(self.v, name, self.per[name], particles[:, :self.lxi], self.lxi, self.kf.lz, u, t)

    def get_nonlin_pred_dynamics(self, particles, u, t):
        return (self.mat('Axi', particles, u, t), self.mat('fxi', particles, u, t), self.mat('Qxi', particles, u, t))

    def get_lin_pred_dynamics(self, particles, u, t):
        return (self.mat('Az', particles, u, t), self.mat('fz', particles, u, t), self.mat('Qz', particles, u, t))

    def get_cross_covariance(self, particles, u, t):
        return self.mat('Qxiz', particles, u, t)

    def get_meas_dynamics(self, particles, y, t):
        xi = particles[:, :self.lxi]; ny = len(y)
        C = self.v.rowuf('C', len(xi), (ny, self.kf.lz), [xi], t) if 'C' in self.per else None
        h = self.v.rowuf('h', len(xi), (ny, 1), [xi], t) if 'h' in self.per else None
        return (y, C, h, self.per['R'] if 'R' in self.per else None)

SCOMBOS = ['some per particle', 'constant, uncorrelated']

def setup(v, M, combos, meas, Class=Model):
    """model, filtered particles, and the matrices in force"""
    lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 2)
    kind = v.choose('matrices', combos if v.symbolic else combos + ['any'])
    how = v.choose('measurement', meas if v.symbolic or len(meas) == 1 else meas + ['some'])
    some = 'ChR' if how == 'per particle' else subset(v, 'measurement per particle', 'ChR', ['']) if how == 'some' else ''
    u = v.tag('u'); t = v.tag('t')
    (part, xi, z, P) = particles(v, M, lxi, lz)
    const = {'Axi': v.arr('Axi0', lxi, lz), 'fxi': v.arr('fxi0', lxi, 1), 'Az': v.arr('Az0', lz, lz), 'fz': v.arr('fz0', lz, 1)}
    (const['Qxi'], const['Qz'], const['Qxiz']) = covariances(v, (), lxi, lz)
    per = {}
    if kind == 'per particle':
        (per['Qxi'], per['Qz'], per['Qxiz']) = covariances(v, (M,), lxi, lz)
        per['Axi'] = per['fxi'] = per['Az'] = per['fz'] = None
    if kind.startswith('some'):
        per['fxi'] = per['Az'] = None
    if kind == 'some per particle': per['Qxiz'] = const['Qxiz']
    if kind == 'any':
        for k in const:
            if not v.choose('per particle ' + k, [False, True]): continue
            per[k] = const[k] + v.spd(k, lxi if k == 'Qxi' else lz, (M,)) if k in ('Qxi', 'Qz') else const['Qxiz'] + np.zeros((M, 1, 1)) if k == 'Qxiz' else None
    F = {}
    for k in const:
        F[k] = dyn(v, k, per[k], xi, lxi, lz, u, t) if k in per else np.zeros((M,) + const[k].shape) + const[k]
    if kind.endswith('uncorrelated'):
        const['Qxiz'] = None
        F['Qxiz'] = np.zeros((M, lxi, lz))
    if 'Qxiz' in per: const['Qxiz'] = None
    const['C'] = v.arr('C0', ny, lz); const['h'] = v.arr('h0', ny, 1); const['R'] = v.spd('R0', ny)
    C = np.zeros((M, ny, lz)) + const['C']; h = np.zeros((M, ny, 1)) + const['h']; R = np.zeros((M, ny, ny)) + const['R']
    if 'R' in some:
        per['R'] = R = v.spd('R', ny, (M,))
    if 'C' in some:
        per['C'] = None
        C = v.rowuf('C', M, (ny, lz), [xi], t)
    if 'h' in some:
        per['h'] = None
        h = v.rowuf('h', M, (ny, 1), [xi], t)
    if how == 'no linear part':
        const['C'] = None
        C = np.zeros((M, ny, lz))
    m = Class(v, per, xi0=v.arr('xi0', lxi), z0=v.arr('z0', lz), **const)
    F['C'] = C; F['h'] = h; F['R'] = R
    return (m, lxi, lz, ny, part, xi, z, P, u, t, F)

class First(Model):
    """the future as a function of the linear state (calc_prop1) is checked, given any outcome of integrating that state out"""
    def calc_prop3(self, particles, Omega, Lambda, u, t):
        self.eta = self.v.arr('eta', len(particles)); self.L = self.v.spd('L', self.kf.lz, (len(particles),))
        return (self.eta, self.L)

class Second(Model):
    """integrating the linear state out (calc_prop3) is checked, given any quadratic function of it"""
    def calc_prop1(self, particles, next_part, u, t):
        M = len(particles); lz = self.kf.lz
        self.args = (particles, next_part, u, t)
        self.c = self.v.arr('c', M); self.O = self.v.psd('Omega', lz, (M,)); self.l = self.v.arr('Lambda', M, lz, 1)
        return (self.c, self.O, self.l)

def messages(v, K, lxi, lz):
    """arbitrary quadratic log-likelihoods of the future: -z'Oz/2 + l'z, at arbitrary next nonlinear states"""
    xi = v.arr('next_xi', K, lxi); O = v.psd('O', lz, (K,)); l = v.arr('l', K, lz)
    msg = np.zeros((K, lxi + lz * lz + lz))
    for k in range(K):
        msg[k, :lxi] = xi[k]
        msg[k, lxi:lxi + lz * lz] = O[k].ravel()
        msg[k, lxi + lz * lz:] = l[k]
    return (msg, xi, O, l)

def conditional(F, j, xn):
    """z' = A z + f + N(0, Q) given that the next nonlinear state is xn"""
    W = F['Qxiz'][j].T.dot(np.linalg.inv(F['Qxi'][j]))
    return (F['Az'][j] - W.dot(F['Axi'][j]), F['fz'][j][:, 0] + W.dot(xn - F['fxi'][j][:, 0]), F['Qz'][j] - W.dot(F['Qxiz'][j]))

def integrate(mu, Q, O, l, symbolic):
    """log of the integral of N(x; A x0 + mu, Q) exp(-x'Ox/2 + l'x), as a quadratic in (A x0): curvature X, slope and constant"""
    n = len(mu)
    m = l - O.dot(mu)
    if symbolic:        # x = mu + F e with e standard normal
        B = np.linalg.cholesky(Q)
        S = B.T.dot(O).dot(B) + np.eye(n)
        G = B.dot(np.linalg.inv(S)).dot(B.T)
    else:
        S = np.eye(n) + Q.dot(O)
        G = np.linalg.inv(S).dot(Q)
    X = O - O.dot(G).dot(O)
    c = -0.5 * mu.dot(O).dot(mu) + l.dot(mu) + 0.5 * m.dot(G).dot(m) - 0.5 * np.linalg.slogdet(S)[1]
    return (X, m - O.dot(G).dot(m), c)

def ck_statistics(v):
    """the statistics given to the preceding step: log-likelihood of the future nonlinear states, and of the measurements from this step on"""
    M = v.dim('M'); K = v.dim('K')
    (m, lxi, lz, ny, part, xi, z, P, u, t, F) = setup(v, M, SCOMBOS if v.symbolic else COMBOS, ['constant', 'per particle', 'no linear part'])
    find = v.idx('find', K, M)
    (msg, xn, O, l) = messages(v, K, lxi, lz)
    last = v.choose('position', ['inside', 'last']) == 'last'
    y = None if v.choose('measured', ['yes', 'no']) == 'no' else v.arr('y', ny, 1)
    ft = None if last else [Step(msg), Step(v.arr('later', K, lxi + lz + lz * lz))]
    s = v.snap((part, msg, find, m, y))
    r = m.sample_smooth(part, None, None, ft, find, [v.tag('u_other'), u], [v.arr('y_other', ny, 1), y], [v.tag('t_other'), t], 1)
    eO = np.zeros((M, lz * lz)); el = np.zeros((M, lz))
    for j in range(M):
        W = np.zeros((lz, lz)); w = np.zeros((lz,))
        if not last:
            (A, f, Q) = conditional(F, j, xn[find[j]])
            (X, b, c) = integrate(f, Q, O[find[j]], l[find[j]], v.symbolic)
            D = F['Axi'][j].T.dot(np.linalg.inv(F['Qxi'][j]))
            W = A.T.dot(X).dot(A) + D.dot(F['Axi'][j])
            w = A.T.dot(b) + D.dot(xn[find[j]] - F['fxi'][j][:, 0])
        if y is not None:
            B = F['C'][j].T.dot(np.linalg.inv(F['R'][j]))
            W = W + B.dot(F['C'][j])
            w = w + B.dot(y[:, 0] - F['h'][j, :, 0])
        eO[j] = W.ravel()
        el[j] = w
    v.eq('nonlinear states', r[:, :lxi], xi)
    v.eq('curvature', r[:, lxi:lxi + lz * lz], eO)
    v.eq('slope', r[:, lxi + lz * lz:], el)
    v.unchanged('frame', (part, msg, find, m, y), s)

def ck_weights(v):
    """log-likelihood of the whole future given the nonlinear state and filtered linear moments, up to a common constant"""
    M = v.dim('M'); K = v.dim('K')
    # the prover takes the two integrations one by one
    part_of = v.choose('part', ['next linear state', 'linear state']) if v.symbolic else ''
    (m, lxi, lz, ny, part, xi, z, P, u, t, F) = setup(v, M, SCOMBOS if v.symbolic else COMBOS, ['constant'],
                                                      {'next linear state': First, 'linear state': Second, '': Model}[part_of])
    find = v.idx('find', K, M)
    (msg, xn, O, l) = messages(v, K, lxi, lz)
    y = v.arr('y', ny, 1)
    s = v.snap((part, msg, find, y))
    lp = m.logp_xnext_full(part, None, None, [Step(msg), Step(v.arr('later', K, lxi + lz + lz * lz))], find,
                           [v.tag('u_other'), u], [v.arr('y_other', ny, 1), y], [v.tag('t_other'), t], 1)
    e = np.zeros((M,))
    if part_of == 'linear state':
        v.eq('particles', m.args[0], part)
        v.eq('their own future', m.args[1], msg[find])
        v.eq('input', m.args[2], u)
        v.eq('time', m.args[3], t)
    for j in range(M):
        x = xn[find[j]]
        if part_of == 'next linear state':
            (A, f, Q) = conditional(F, j, x)
            d = x - F['fxi'][j][:, 0]
            e[j] = (integrate(f, Q, O[find[j]], l[find[j]], True)[2] - 0.5 * (m.eta[j] + np.linalg.slogdet(m.L[j])[1])
                    - 0.5 * d.dot(np.linalg.inv(F['Qxi'][j])).dot(d) - 0.5 * np.linalg.slogdet(F['Qxi'][j])[1])
        elif part_of == 'linear state':
            e[j] = m.c[j] + integrate(z[j], P[j], m.O[j], m.l[j, :, 0], True)[2]
        else:           # z integrated out of the prediction, then the next linear state
            (mx, S) = marg(F, j, z[j], P[j])
            (mz, V) = cond(F, j, z[j], P[j], x)
            e[j] = logn(x - mx, S) + integrate(mz, V, O[find[j]], l[find[j]], False)[2]
    v.eq('number of weights', len(lp), M)
    d = lp - e
    v.eq('log-likelihood of the future relative to the first particle', d, np.zeros((M,)) + d[0])
    v.unchanged('frame', (part, msg, find, y), s)

def ck_rejection(v):
    """no bound on the marginalised weights is offered: asking for one fails instead of returning a wrong one"""
    M = v.dim('M')
    (m, lxi, lz, ny, part, xi, z, P, u, t, F) = setup(v, M, ['constant'], ['constant'])
    v.raises(lambda: m.logp_xnext_max(part, u, t), NotImplementedError)

def ck_factor(v):
    """square root of a covariance"""
    n = v.dim('n', 1, 4)
    A = v.spd('A', n) if v.symbolic else v.psd('A', n)
    s = v.snap(A)
    F = mlnlg.factor_psd(A)
    v.eq('square root', F.dot(F.T), A)
    v.unchanged('argument', A, s)

def ck_smoothed(v):
    """smoothed linear moments are the exact ones given the nonlinear trajectory and all measurements"""
    M = v.dim('M'); T = v.choose('T', [1, 2, 3])
    (m, lxi, lz, ny, sel) = linear(v, Model)
    smoothed(v, m, M, T, lxi, lz, ny)

def ck_recursion(v):
    """the recursion from the last step backwards: weights of the future are the exact likelihoods of the nonlinear path and the measurements"""
    N = v.dim('N', 2, 3); T = v.choose('T', [2, 3])
    (m, lxi, lz, ny, sel) = linear(v, Model)
    def at(name, xi, k):
        n = len(xi)
        if name not in m.per: return np.zeros((n,) + m.const[name].shape) + m.const[name]
        if name in ('C', 'h'): return v.rowuf(name, n, (ny, lz) if name == 'C' else (ny, 1), [xi], t[k])
        return dyn(v, name, None, xi, lxi, lz, u[k], t[k])
    u = [v.tag('u%d' % k) for k in range(T)]; t = [v.tag('t%d' % k) for k in range(T)]
    y = [v.arr('y%d' % k, ny, 1) if v.choose('measured at %d' % k, ['yes', 'no']) == 'yes' else None for k in range(T)]
    path = [v.arr('xi%d' % k, 1, lxi) for k in range(T)]
    zero = np.zeros(1, dtype=int)
    def full(xi): return np.hstack((xi, np.zeros((len(xi), lz + lz * lz))))
    fut = []
    for k in range(T - 1, 0, -1):
        x = m.sample_smooth(full(path[k]), None, None, fut if fut else None, zero, u, y, t, k)
        fut = [Step(x, zero)] + fut
    (part, xi, z, P) = particles(v, N, lxi, lz)
    lp = m.logp_xnext_full(part, None, None, fut, np.zeros(N, dtype=int), u, y, t, 0)
    Q = np.vstack((np.hstack((m.const['Qxi'], m.const['Qxiz'])), np.hstack((m.const['Qxiz'].T, m.const['Qz']))))
    e = np.zeros(N)
    for i in range(N):
        # joint filter over (nonlinear path, measurements): sum of the one-step predictive log-densities
        mz = z[i]; V = P[i]; l = 0.0
        for k in range(T):
            x = xi[i:i + 1] if k == 0 else path[k]
            if k > 0 and y[k] is not None:
                C = at('C', x, k)[0]; h = at('h', x, k)[0, :, 0]
                S = C.dot(V).dot(C.T) + m.const['R']; G = V.dot(C.T).dot(np.linalg.inv(S)); d = y[k][:, 0] - h - C.dot(mz)
                l += logn(d, S); mz = mz + G.dot(d); V = V - G.dot(S).dot(G.T)
            if k + 1 < T:
                A = np.vstack((at('Axi', x, k)[0], at('Az', x, k)[0])); f = np.vstack((at('fxi', x, k)[0], at('fz', x, k)[0]))[:, 0]
                mm = A.dot(mz) + f; S = A.dot(V).dot(A.T) + Q
                Sx = S[:lxi, :lxi]; G = S[lxi:, :lxi].dot(np.linalg.inv(Sx)); d = path[k + 1][0] - mm[:lxi]
                l += logn(d, Sx); mz = mm[lxi:] + G.dot(d); V = S[lxi:, lxi:] - G.dot(Sx).dot(G.T)
        e[i] = l
    v.eq('log-likelihood of the future relative to the first particle', lp - lp[0], e - e[0])

CONF = {'budget': 300, 'split': {'ck_statistics': 5, 'ck_forward': 5, 'ck_backward': 3}}
CONTRACTS = ['ck_statistics', 'ck_weights', 'ck_rejection', 'ck_factor', 'ck_forward', 'ck_backward', 'ck_smoothed', 'ck_recursion', 'ck_forward_any', 'ck_backward_any']
SYM = {'ck_smoothed': 'bounded', 'ck_recursion': 'bounded'}
