"""P14: linear time-varying models run the exact Kalman recursion."""
import math
import numpy as np
import pyparticleest.models.ltv as ltv

class Model(ltv.LTV):
    """matrices are constants of the model, or depend on (u, t) / (y, t)"""
    def __init__(self, z0, P0, dyn, meas, **kw):
        ltv.LTV.__init__(self, z0, P0, **kw)
        self.dyn = dyn
        self.meas = meas

    def get_pred_dynamics(self, u, t):
        if self.dyn is None: return (None, None, None)
        return self.dyn(u, t)

    def get_meas_dynamics(self, y, t):
        if self.meas is None: return (y, None, None, None)
        return self.meas(y, t)

def logn(e, S):
    return -0.5 * (len(e) * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + e.dot(np.linalg.inv(S)).dot(e))

def setup(v):
    n = v.dim('n', 1, 3)
    return (n, v.arr('z0', n), v.spd('P0', n))

def moments(part, i, n):
    return (part[i, :n], part[i, n:n + n * n].reshape((n, n)))

def particles(v, n, N, name):
    """(z, P, particles holding them)"""
    z = v.arr(name + '_z', N, n); P = v.spd(name + '_P', n, (N,))
    part = np.zeros((N, n + n * n))
    for i in range(N):
        part[i, :n] = z[i]
        part[i, n:] = P[i].ravel()
    return (z, P, part)

def ck_initial(v):
    (n, z0, P0) = setup(v)
    N = v.dim('N')
    arg = z0 if v.choose('z0', ['flat', 'column']) == 'flat' else z0.reshape((n, 1))
    m = Model(arg, P0, None, None, A=np.eye(n), C=np.eye(n), Q=np.eye(n), R=np.eye(n))
    s = v.snap((z0, P0))
    part = m.create_initial_estimate(N)
    e = np.zeros((N, n + n * n))
    for i in range(N):
        e[i, :n] = z0
        e[i, n:] = P0.ravel()
    v.eq('initial particles', part, e)
    v.disjoint('particles and model', part, m)
    v.unchanged('arguments', (z0, P0), s)

def ck_states(v):
    """what is stored is what is read"""
    (n, z0, P0) = setup(v)
    N = v.dim('N')
    m = Model(z0, P0, None, None)
    part = v.arr('part', N, n + n * n)
    z = v.arr('z', N, n, 1); P = v.arr('P', N, n, n)
    s = v.snap((z, P))
    zl = [z[i] for i in range(N)]
    Pl = [P[i] for i in range(N)]
    m.set_states(part, zl, Pl)
    (zr, Pr) = m.get_states(part)
    v.eq('number of means', len(zr), N)
    v.eq('number of covariances', len(Pr), N)
    i = v.index('i', N)
    v.eq('mean', zr[i], z[i])
    v.eq('covariance', Pr[i], P[i])
    v.eq('stored mean', part[i, :n], z[i].ravel())
    v.unchanged('arguments', (z, P), s)

DYN = ['', 'AfQ', 'A', 'f', 'Q']
MEAS = ['', 'ChR', 'C', 'h', 'R']

class Timed(object):
    """model whose matrices named in `vary` are given at every step, the others being constants of the model; at (u, t) the matrices in
    force are pred(u, t) and those of a measurement at t are meas(t). The constants of the varying ones are decoys."""
    def __init__(self, v, n, z0, P0, m, vary):
        self.v = v; self.n = n; self.m = m; self.vary = vary
        self.A = v.arr('A', n, n); self.f = v.arr('f', n, 1); self.Q = v.psd('Q', n)
        self.C = v.arr('C', m, n); self.h = v.arr('h', m, 1); self.R = v.spd('R', m)
        self.model = Model(z0, P0, self._dyn, self._meas, A=self.A, f=self.f, Q=np.eye(n) if 'Q' in vary else self.Q,
                           C=self.C, h=self.h, R=np.eye(m) if 'R' in vary else self.R)
    def pred(self, u, t):
        return (self.v.uf('A', (self.n, self.n), u, t) if 'A' in self.vary else self.A, self.v.uf('f', (self.n, 1), u, t) if 'f' in self.vary else self.f, self.Q)
    def meas(self, t):
        return (self.v.uf('C', (self.m, self.n), t) if 'C' in self.vary else self.C, self.v.uf('h', (self.m, 1), t) if 'h' in self.vary else self.h, self.R)
    def _given(self, names, mats):
        r = [None, None, None]
        for k in range(3):
            if names[k] in self.vary: r[k] = mats[k]
        return r
    def _dyn(self, u, t):
        (A, f, Q) = self._given('AfQ', self.pred(u, t))
        return (A, f, Q)
    def _meas(self, y, t):
        (C, h, R) = self._given('ChR', self.meas(t))
        return (y, C, h, R)

def ck_update(v):
    (n, z0, P0) = setup(v)
    N = v.dim('N')
    vary = v.choose('given at every step', DYN)
    tm = Timed(v, n, z0, P0, v.dim('m'), vary)
    mod = tm.model
    (z, P, part) = particles(v, n, N, 'p')
    u = v.tag('u'); t = v.tag('t')
    if vary: mod.update(part.copy(), v.tag('u_before'), v.tag('t_before'), None)
    r = mod.update(part, u, t, mod.sample_process_noise(part, u, t))
    (A, f, Q) = tm.pred(u, t)
    for i in range(N):
        part[i, :n] = part[i, :n] - (A.dot(z[i]) + f[:, 0])
        part[i, n:] = part[i, n:] - (A.dot(P[i]).dot(A.T) + Q).ravel()
    v.eq('moments of the next state', part, np.zeros((N, n + n * n)))
    v.eq('returned particles', r, part)

def ck_measure(v):
    (n, z0, P0) = setup(v)
    N = v.dim('N'); m = v.dim('m')
    vary = v.choose('given at every step', MEAS)
    tm = Timed(v, n, z0, P0, m, vary)
    mod = tm.model
    (z, P, part) = particles(v, n, N, 'p')
    y = v.arr('y', m, 1); t = v.tag('t')
    if vary: mod.measure(part.copy(), y, v.tag('t_before'))
    s = v.snap(y)
    lp = mod.measure(part, y, t)
    (C, h, R) = tm.meas(t)
    e = np.zeros((N,))
    x = np.zeros((N, n + n * n))
    for i in range(N):
        S = C.dot(P[i]).dot(C.T) + R
        K = P[i].dot(C.T).dot(np.linalg.inv(S))
        err = y[:, 0] - h[:, 0] - C.dot(z[i])
        e[i] = logn(err, S)
        x[i, :n] = z[i] + K.dot(err)
        x[i, n:] = (P[i] - K.dot(C).dot(P[i])).ravel()
    v.eq('log-likelihood', lp, e)
    v.eq('posterior moments', part, x)
    v.unchanged('measurement', y, s)

class Box(object):
    def __init__(self, part): self.part = part

class Step(object):
    def __init__(self, part): self.pa = Box(part)

def ck_smooth(v):
    (n, z0, P0) = setup(v)
    M = v.dim('M'); K = v.dim('K')
    vary = v.choose('given at every step', DYN)
    tm = Timed(v, n, z0, P0, v.dim('m'), vary)
    mod = tm.model
    k = v.choose('step', [0, 1])
    u = [v.tag('u%d' % j) for j in range(4)]; t = [v.tag('t%d' % j) for j in range(4)]; y = [v.tag('y%d' % j) for j in range(4)]
    (z, P, part) = particles(v, n, M, 'p')
    if v.choose('position', ['inside', 'last']) == 'last':
        s = v.snap(part)
        r = mod.sample_smooth(part, None, None, None, None, u, y, t, 3)
        v.eq('filtered moments', r[:, :n + n * n], part)
        v.eq('no cross-covariance', r[:, n + n * n:], np.zeros((M, n * n)))
        v.unchanged('particles', part, s)
        return
    (zn, Pn, nxt) = particles(v, n, K, 'q')
    nxt = np.hstack((nxt, v.arr('cross', K, n * n)))
    find = v.idx('find', K, M)
    ft = [Step(nxt), Step(v.arr('later', K, n + 2 * n * n))]
    s = v.snap((part, nxt, find))
    if vary: mod.update(part.copy(), v.tag('u_before'), v.tag('t_before'), None)
    r = mod.sample_smooth(part, None, None, ft, find, u, y, t, k)
    (A, f, Q) = tm.pred(u[k], t[k])
    e = np.zeros((M, n + 2 * n * n))
    for j in range(M):
        Pp = A.dot(P[j]).dot(A.T) + Q
        J = P[j].dot(A.T).dot(np.linalg.inv(Pp))
        e[j, :n] = z[j] + J.dot(zn[find[j]] - A.dot(z[j]) - f[:, 0])
        e[j, n:n + n * n] = (P[j] + J.dot(Pn[find[j]] - Pp).dot(J.T)).ravel()
        e[j, n + n * n:] = J.dot(Pn[find[j]]).ravel()
    v.eq('smoothed moments', r, e)
    v.unchanged('frame', (part, nxt, find), s)

def ck_weights(v):
    """all particles of a linear model are equivalent"""
    (n, z0, P0) = setup(v)
    N = v.dim('N')
    mod = Timed(v, n, z0, P0, 1, '').model
    (z, P, part) = particles(v, n, N, 'p')
    (zn, Pn, nxt) = particles(v, n, N, 'q')
    lp = mod.logp_xnext(part, nxt, v.tag('u'), v.tag('t'))
    v.eq('relative transition weights', lp - lp[0], np.zeros((N,)))

CONF = {'budget': 200}

CONTRACTS = ['ck_initial', 'ck_states', 'ck_update', 'ck_measure', 'ck_smooth', 'ck_weights']
