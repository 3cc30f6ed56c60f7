"""P18: hierarchical models: conditional linear recursion, weights and bounds."""
import numpy as np
import pyparticleest.models.hierarchial as hier
from contracts.stubs import logn, Step, subset
from contracts.c16 import particles, likelihood, MEAS
from contracts.rbps import ck_forward, ck_backward, ck_forward_any, ck_backward_any, trajectories, compare

class Model(hier.HierarchicalRSBase):
    """arbitrary nonlinear part; linear matrices constant or functions of (xi, u, t)"""
    def __init__(self, v, lxi, lz, per, **kw):
        self.v = v
        self.per = per
        hier.HierarchicalRSBase.__init__(self, len_xi=lxi, len_z=lz, **kw)

    def get_lin_pred_dynamics(self, particles, u, t):
        xi = particles[:, :self.lxi]; n = len(xi); lz = self.kf.lz
        return (self.v.rowuf('A', n, (lz, lz), [xi], u, t) if 'A' in self.per else None,
                self.v.rowuf('f', n, (lz, 1), [xi], u, t) if 'f' in self.per else None, 
                self.per['Q'] if 'Q' in self.per else scaled(self.v, self.per['scale'], xi, u, t) if 'scale' in self.per else None)

    def get_lin_meas_dynamics(self, particles, y, t):
        xi = particles[:, :self.lxi]; n = len(xi); ny = len(y)
        return (y, self.v.rowuf('C', n, (ny, self.kf.lz), [xi], t) if 'C' in self.per else None,
                self.v.rowuf('h', n, (ny, 1), [xi], t) if 'h' in self.per else None, self.per['R'] if 'R' in self.per else None)

    def measure_nonlin(self, particles, y, t):
        return self.v.rowuf('g', len(particles), (), [particles[:, :self.lxi]], y, t)

    def logp_xnext_xi(self, particles, next_xi, u, t):
        return self.v.rowuf('lpxi', len(particles), (), [particles[:, :self.lxi], next_xi], u, t)

    def logp_xnext_xi_max(self, particles, u, t):
        return self.v.rowuf('lpmax', len(particles), (), [particles[:, :self.lxi]], u, t)

    def calc_xi_next(self, particles, u, t, noise):
        return self.v.rowuf('xin', len(particles), (self.lxi,), [particles[:, :self.lxi], noise], u, t)

    def get_rb_initial(self, xi): return (self.z0, self.P0)
    def create_initial_estimate(self, N): return None

COMBOS = ['', 'AfQ', 'A', 'f', 'Q']

def setup(v, N):
    lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3)
    u = v.tag('u'); t = v.tag('t')
    kind = subset(v, 'per particle', 'AfQ', COMBOS)
    (part, xi, z, P) = particles(v, N, lxi, lz)
    per = {}
    A0 = v.arr('A0', lz, lz); f0 = v.arr('f0', lz, 1); Q0 = v.spd('Q0', lz)
    A = np.zeros((N, lz, lz)) + A0; f = np.zeros((N, lz, 1)) + f0; Q = np.zeros((N, lz, lz)) + Q0
    if 'A' in kind:
        per['A'] = None
        A = v.rowuf('A', N, (lz, lz), [xi], u, t)
    if 'f' in kind:
        per['f'] = None
        f = v.rowuf('f', N, (lz, 1), [xi], u, t)
    if 'Q' in kind:
        per['Q'] = Q = v.spd('Q', lz, (N,))
    m = Model(v, lxi, lz, per, Az=A0, fz=f0, Qz=Q0)
    return (m, lxi, lz, part, xi, z, P, u, t, A, f, Q)

def ck_update(v):
    """nonlinear states are propagated by the model, linear moments by the exact Kalman prediction of each particle"""
    N = v.dim('N')
    (m, lxi, lz, part, xi, z, P, u, t, A, f, Q) = setup(v, N)
    noise = v.arr('noise', N, lxi)
    s = v.snap((noise, m))
    r = m.update(part, u, t, noise)
    ez = np.zeros((N, lz)); eP = np.zeros((N, lz * lz))
    for i in range(N):
        ez[i] = A[i].dot(z[i]) + f[i][:, 0]
        eP[i] = (A[i].dot(P[i]).dot(A[i].T) + Q[i]).ravel()
    v.eq('nonlinear states', part[:, :lxi], v.rowuf('xin', N, (lxi,), [xi, noise], u, t))
    v.eq('linear means', part[:, lxi:lxi + lz], ez)
    v.eq('linear covariances', part[:, lxi + lz:], eP)
    v.eq('returned particles', r, part)
    v.unchanged('frame', (noise, m), s)

def ck_conditioning(v):
    """the next nonlinear state says nothing about the linear states, and the conditional dynamics are the linear ones"""
    N = v.dim('N')
    (m, lxi, lz, part, xi, z, P, u, t, A, f, Q) = setup(v, N)
    xn = v.arr('xi_next', N, lxi, 1)
    s = v.snap((part, xn, m))
    m.meas_xi_next(part, xn, u, t)
    (Ac, fc, Qc) = m.calc_cond_dynamics(part, xn, u, t)
    i = v.index('i', N)
    v.eq('transition matrix', Ac[i], A[i])
    v.eq('affine term', fc[i], f[i])
    v.eq('noise covariance', Qc[i], Q[i])
    v.unchanged('frame', (part, xn, m), s)

def ck_measure(v):
    """weight: nonlinear likelihood times exact linear likelihood; moments: exact posterior"""
    N = v.dim('N'); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 3)
    t = v.tag('t')
    how = subset(v, 'measurement per particle', 'ChR', ['', 'ChR', 'h', 'C'])
    (part, xi, z, P) = particles(v, N, lxi, lz)
    C0 = v.arr('C0', ny, lz); h0 = v.arr('h0', ny, 1); R0 = v.spd('R0', ny)
    C = np.zeros((N, ny, lz)) + C0; h = np.zeros((N, ny, 1)) + h0; R = np.zeros((N, ny, ny)) + R0
    per = {}
    if 'C' in how:
        per['C'] = None
        C = v.rowuf('C', N, (ny, lz), [xi], t)
    if 'h' in how:
        per['h'] = None
        h = v.rowuf('h', N, (ny, 1), [xi], t)
    if 'R' in how:
        per['R'] = R = v.spd('R', ny, (N,))
    m = Model(v, lxi, lz, per, Az=v.arr('A0', lz, lz), fz=v.arr('f0', lz, 1), Qz=v.spd('Q0', lz), C=C0, hz=h0, R=R0)
    y = v.arr('y', ny, 1)
    s = v.snap((y, m))
    lp = m.measure(part, y, t)
    e = np.zeros((N,)); ez = np.zeros((N, lz)); eP = np.zeros((N, lz * lz))
    g = v.rowuf('g', N, (), [xi], y, t)
    for i in range(N):
        (l, mz, V) = likelihood(C[i], h[i, :, 0], R[i], y[:, 0], z[i], P[i])
        e[i] = g[i] + l
        ez[i] = mz
        eP[i] = V.ravel()
    v.eq('log-likelihood', lp, e)
    v.eq('nonlinear states', part[:, :lxi], xi)
    v.eq('linear means', part[:, lxi:lxi + lz], ez)
    v.eq('linear covariances', part[:, lxi + lz:], eP)
    v.unchanged('frame', (y, m), s)

def ck_transition(v):
    """transition density of the nonlinear states times the predictive density of the linear ones"""
    N = v.dim('N')
    (m, lxi, lz, part, xi, z, P, u, t, A, f, Q) = setup(v, N)
    one = v.choose('next', ['each its own', 'one for all']) == 'one for all'
    nxt = v.arr('next', 1 if one else N, lxi + lz + lz * lz)
    s = v.snap((part, nxt, m))
    lp = m.logp_xnext(part, nxt, u, t)
    nx = np.zeros((N, lxi + lz + lz * lz)) + nxt
    e = np.zeros((N,))
    g = v.rowuf('lpxi', N, (), [xi, nx[:, :lxi]], u, t)
    for i in range(N):
        e[i] = g[i] + logn(nx[i, lxi:lxi + lz] - A[i].dot(z[i]) - f[i][:, 0], A[i].dot(P[i]).dot(A[i].T) + Q[i])
    v.eq('transition log-density', lp, e)
    v.unchanged('frame', (part, nxt, m), s)

def ck_bound(v):
    """the bound is the largest value attainable by any particle, given the model's bounds on the nonlinear part"""
    N = v.dim('N')
    (m, lxi, lz, part, xi, z, P, u, t, A, f, Q) = setup(v, N)
    s = v.snap((part, m))
    b = m.logp_xnext_max(part, u, t)
    g = v.rowuf('lpmax', N, (), [xi], u, t)
    e = np.zeros((N,))
    for i in range(N):
        e[i] = g[i] + logn(np.zeros((lz,)), A[i].dot(P[i]).dot(A[i].T) + Q[i])
    v.eq('bound', b, np.max(e))
    v.unchanged('frame', (part, m), s)

def ck_bound_holds(v):
    """no transition log-density exceeds the bound when the nonlinear part respects its own"""
    N = v.dim('N')
    (m, lxi, lz, part, xi, z, P, u, t, A, f, Q) = setup(v, N)
    nxt = v.arr('next', 1, lxi + lz + lz * lz)
    i = v.index('i', N)
    b = m.logp_xnext_max(part, u, t)
    lp = m.logp_xnext(part, nxt, u, t)
    nx = np.zeros((N, lxi)) + nxt[:, :lxi]
    gap = v.rowuf('lpmax', N, (), [xi], u, t)[i] - v.rowuf('lpxi', N, (), [xi, nx], u, t)[i]
    # what the particle's own nonlinear bound is short of counts against it, not against the library
    d = nxt[0, lxi:lxi + lz] - A[i].dot(z[i]) - f[i][:, 0]
    v.le('transition density of particle i', lp[i] + gap + 0.5 * v.quad(d, Q[i], A[i], P[i]), b)

def ck_sample_smooth(v):
    """backward sampling of the linear states: exact Gaussian conditional given the sampled next linear state"""
    M = v.dim('M'); K = v.dim('K')
    (m, lxi, lz, part, xi, z, P, u, t, A, f, Q) = setup_one(v, M)
    ut = [v.tag('u_other'), u]; tt = [v.tag('t_other'), t]
    nxt = v.arr('next', K, lxi + lz + 2 * lz * lz); find = v.idx('find', K, M)
    last = v.choose('position', ['inside', 'last']) == 'last'
    ft = None if last else [Step(nxt), Step(v.arr('later', K, lxi + lz))]
    s = v.snap((part, nxt, find, m))
    (mean, cov) = v.moments(lambda: m.sample_smooth(part, None, None, ft, find, ut, None, tt, 1))
    ez = np.zeros((M, lz)); V = np.zeros((M, lz, M, lz))
    for j in range(M):
        ez[j] = z[j]
        V[j, :, j, :] = P[j]
        if not last:
            G = P[j].dot(A[j].T).dot(np.linalg.inv(A[j].dot(P[j]).dot(A[j].T) + Q[j]))
            ez[j] = z[j] + G.dot(nxt[find[j], lxi:lxi + lz] - A[j].dot(z[j]) - f[j][:, 0])
            V[j, :, j, :] = P[j] - G.dot(A[j]).dot(P[j])
    n = lxi + lz
    v.eq('nonlinear states', mean[:, :lxi], xi)
    v.eq('mean of the linear states', mean[:, lxi:n], ez)
    v.eq('covariance of the linear states', cov[:, lxi:n, :, lxi:n], V)
    v.eq('nonlinear states are not random', cov[:, :lxi, :, :lxi], np.zeros((M, lxi, M, lxi)))
    v.unchanged('frame', (part, nxt, find, m), s)

def setup_one(v, N):
    """per particle matrices must be functions of (xi, u, t) row by row, since particles are passed one at a time"""
    lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3)
    u = v.tag('u'); t = v.tag('t')
    (part, xi, z, P) = particles(v, N, lxi, lz)
    kind = v.choose('matrices', ['constant', 'per particle'])
    A0 = v.arr('A0', lz, lz); f0 = v.arr('f0', lz, 1); Q0 = v.spd('Q0', lz)
    A = np.zeros((N, lz, lz)) + A0; f = np.zeros((N, lz, 1)) + f0; Q = np.zeros((N, lz, lz)) + Q0
    per = {}
    if kind != 'constant':
        per['A'] = per['f'] = None
        A = v.rowuf('A', N, (lz, lz), [xi], u, t)
        f = v.rowuf('f', N, (lz, 1), [xi], u, t)
        per['scale'] = Q0
        Q = scaled(v, Q0, xi, u, t)
    m = Model(v, lxi, lz, per, Az=A0, fz=f0, Qz=Q0)
    return (m, lxi, lz, part, xi, z, P, u, t, A, f, Q)

def scaled(v, Q0, xi, u, t):
    s = v.rowuf('scale', len(xi), (), [xi], u, t)
    return Q0 * (1 + s * s)[:, np.newaxis, np.newaxis]

def ck_smoothed(v):
    """smoothed linear states are the exact conditional moments given the nonlinear trajectory and all measurements"""
    M = v.dim('M'); T = v.choose('T', [1, 2, 3]); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 2); ny = v.dim('ny', 1, 2)
    per = {} if v.choose('matrices', ['constant', 'functions of the nonlinear state']) == 'constant' else {'A': None, 'f': None, 'C': None, 'h': None}
    Q = v.spd('Q', lz); R = v.spd('R', ny)
    c = {'A': v.arr('A0', lz, lz), 'f': v.arr('f0', lz, 1), 'C': v.arr('C0', ny, lz), 'h': v.arr('h0', ny, 1)}
    m = Model(v, lxi, lz, per, Az=c['A'], fz=c['f'], Qz=Q, C=c['C'], hz=c['h'], R=R)
    m.z0 = v.arr('z0', M, lz, 1); m.P0 = v.spd('P0', lz, (M,))
    st = trajectories(v, M, lxi + lz + 2 * lz * lz, T, ny)
    s = v.snap(st)
    r = m.post_smoothing(st)
    def at(name, k, j):
        if name not in m.per: return c[name]
        xi = st.traj[k].pa.part[:, :lxi]
        sh = {'A': (lz, lz), 'f': (lz, 1), 'C': (ny, lz), 'h': (ny, 1)}[name]
        if name in 'Ch': return v.rowuf(name, M, sh, [xi], st.t[k])[j]
        return v.rowuf(name, M, sh, [xi], st.u[k], st.t[k])[j]
    compare(v, m, st, r, lambda st, j: (m.z0[j, :, 0], m.P0[j]), lambda st, k, j: (at('A', k, j), at('f', k, j)[:, 0], Q),
            lambda st, k, j: (at('C', k, j), at('h', k, j)[:, 0], R), lxi, lz)
    v.unchanged('frame', st, s)

CONF = {'budget': 200, 'split': {'ck_forward': 5, 'ck_backward': 2}}
SYM = {'ck_smoothed': 'bounded'}
CONTRACTS = ['ck_update', 'ck_conditioning', 'ck_measure', 'ck_transition', 'ck_bound', 'ck_bound_holds', 'ck_sample_smooth', 'ck_forward', 'ck_backward', 'ck_smoothed', 'ck_forward_any', 'ck_backward_any']
