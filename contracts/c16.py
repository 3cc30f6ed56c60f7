"""P16: mixed linear/nonlinear Gaussian model: conditional dynamics, likelihoods and sampling are exact."""
import numpy as np
import pyparticleest.models.mlnlg as mlnlg
from contracts.stubs import logn, Box, Step, subset
from contracts.rbps import ck_forward, ck_backward, ck_forward_any, ck_backward_any, trajectories, compare

class Model(mlnlg.MixedNLGaussianSampledInitialGaussian):
    """user model; every matrix is a constant of the model, or given per particle (a function of xi, u, t)"""
    def __init__(self, v, per, **kw):
        self.v = v
        self.per = per
        mlnlg.MixedNLGaussianSampledInitialGaussian.__init__(self, **kw)

    def mat(self, name, particles, u, t):
        if name not in self.per: return None
        return dyn(self.v, name, self.per[name], particles[:, :self.lxi], self.lxi, self.kf.lz, u, t)

    def get_nonlin_pred_dynamics(self, particles, u, t):
        return (self.mat('Axi', particles, u, t), self.mat('fxi', particles, u, t), self.mat('Qxi', particles, u, t))

    def get_lin_pred_dynamics(self, particles, u, t):
        return (self.mat('Az', particles, u, t), self.mat('fz', particles, u, t), self.mat('Qz', particles, u, t))

    def get_cross_covariance(self, particles, u, t):
        return self.mat('Qxiz', particles, u, t)

    def get_meas_dynamics(self, particles, y, t):
        xi = particles[:, :self.lxi]; ny = len(y)
        C = self.v.rowuf('C', len(xi), (ny, self.kf.lz), [xi], t) if 'C' in self.per else None
        h = self.v.rowuf('h', len(xi), (ny, 1), [xi], t) if 'h' in self.per else None
        return (y, C, h, self.per['R'] if 'R' in self.per else None)

def dyn(v, name, base, xi, lxi, lz, u, t):
    """matrix `name` of every particle"""
    if name in ('Qxi', 'Qz'): return base
    if name == 'Qxiz' and not v.symbolic:       # scaled by at most one: the joint covariance stays positive definite
        c = v.rowuf('cross', len(xi), (), [xi], u, t)
        return base / (1 + c * c)[:, np.newaxis, np.newaxis]
    sh = {'Axi': (lxi, lz), 'fxi': (lxi, 1), 'Az': (lz, lz), 'fz': (lz, 1), 'Qxiz': (lxi, lz)}
    return v.rowuf(name, len(xi), sh[name], [xi], u, t)

def covariances(v, n, lxi, lz):
    """blocks of arbitrary joint process noise covariances"""
    if v.symbolic: return (v.spd('Qxi', lxi, n), v.spd('Qz', lz, n), v.arr('Qxiz', *(n + (lxi, lz))))
    Q = v.spd('Q', lxi + lz, n)
    return (Q[..., :lxi, :lxi].copy(), Q[..., lxi:, lxi:].copy(), Q[..., :lxi, lxi:].copy())

def particles(v, N, lxi, lz, name=''):
    xi = v.arr(name + 'xi', N, lxi); z = v.arr(name + 'z', N, lz); P = v.spd(name + 'P', lz, (N,))
    part = np.zeros((N, lxi + lz + lz * lz))
    for i in range(N):
        part[i, :lxi] = xi[i]
        part[i, lxi:lxi + lz] = z[i]
        part[i, lxi + lz:] = P[i].ravel()
    return (part, xi, z, P)

COMBOS = ['constant, uncorrelated', 'constant', 'per particle', 'some per particle', 'some per particle, uncorrelated']

def setup(v, N=None, combos=COMBOS, other=['any']):
    """a model, its particles, and the matrices in force for each of them at (u, t)"""
    if N is None: N = v.dim('N')
    lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3)
    u = v.tag('u'); t = v.tag('t')
    kind = v.choose('matrices', combos if v.symbolic else combos + other)
    (part, xi, z, P) = particles(v, N, lxi, lz)
    const = {'Axi': v.arr('Axi0', lxi, lz), 'fxi': v.arr('fxi0', lxi, 1), 'Az': v.arr('Az0', lz, lz), 'fz': v.arr('fz0', lz, 1)}
    (const['Qxi'], const['Qz'], const['Qxiz']) = covariances(v, (), lxi, lz)
    per = {}
    if kind == 'per particle':
        (per['Qxi'], per['Qz'], per['Qxiz']) = covariances(v, (N,), lxi, lz)
        per['Axi'] = per['fxi'] = per['Az'] = per['fz'] = None
    if kind.startswith('some'):
        per['fxi'] = per['Az'] = None
    if kind == 'some per particle': per['Qxiz'] = const['Qxiz']
    if kind == 'any':
        for k in const:
            if not v.choose('per particle ' + k, [False, True]): continue
            per[k] = const[k] + v.spd(k, lxi if k == 'Qxi' else lz, (N,)) if k in ('Qxi', 'Qz') else const['Qxiz'] + np.zeros((N, 1, 1)) if k == 'Qxiz' else None
    none = np.zeros((lxi, lz))
    F = {}
    for k in const:
        F[k] = dyn(v, k, per[k], xi, lxi, lz, u, t) if k in per else np.zeros((N,) + const[k].shape) + const[k]
    if kind.endswith('uncorrelated'):
        const['Qxiz'] = None
        F['Qxiz'] = np.zeros((N, lxi, lz))
    if 'Qxiz' in per: const['Qxiz'] = None
    m = Model(v, per, xi0=v.arr('xi0', lxi), z0=v.arr('z0', lz), R=np.eye(1), C=np.zeros((1, lz)), h=np.zeros((1, 1)), **const)
    return (m, N, lxi, lz, part, xi, z, P, u, t, F)

def joint(F, i, z, P):
    """mean and covariance of (xi', z') given the linear moments of particle i"""
    A = np.vstack((F['Axi'][i], F['Az'][i]))
    f = np.hstack((F['fxi'][i][:, 0], F['fz'][i][:, 0]))
    Q = np.vstack((np.hstack((F['Qxi'][i], F['Qxiz'][i])), np.hstack((F['Qxiz'][i].T, F['Qz'][i]))))
    return (A.dot(z) + f, A.dot(P).dot(A.T) + Q)

def marg(F, i, z, P):
    """mean and covariance of xi' """
    return (F['Axi'][i].dot(z) + F['fxi'][i][:, 0], F['Axi'][i].dot(P).dot(F['Axi'][i].T) + F['Qxi'][i])

def cond(F, i, z, P, xn):
    """moments of z' given xi' = xn"""
    (m, S) = marg(F, i, z, P)
    G = (F['Az'][i].dot(P).dot(F['Axi'][i].T) + F['Qxiz'][i].T).dot(np.linalg.inv(S))
    return (F['Az'][i].dot(z) + F['fz'][i][:, 0] + G.dot(xn - m), F['Az'][i].dot(P).dot(F['Az'][i].T) + F['Qz'][i] - G.dot(S).dot(G.T))

def ck_noise(v):
    """process noise of the nonlinear states includes the uncertainty of the linear ones"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v)
    s = v.snap(part)
    (mean, cov) = v.moments(lambda: m.sample_process_noise(part, u, t))
    v.eq('mean', mean, np.zeros((N, lxi)))
    e = np.zeros((N, lxi, N, lxi))
    for i in range(N):
        e[i, :, i, :] = marg(F, i, z[i], P[i])[1]
    v.eq('covariance', cov, e)
    v.unchanged('particles', part, s)

def ck_update(v):
    """time update: new nonlinear state, and linear moments conditioned on it"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v)
    noise = v.arr('noise', N, lxi)
    s = v.snap((noise, m))
    r = m.update(part, u, t, noise)
    ex = np.zeros((N, lxi)); ez = np.zeros((N, lz)); eP = np.zeros((N, lz * lz))
    for i in range(N):
        xn = marg(F, i, z[i], P[i])[0] + noise[i]
        (mz, V) = cond(F, i, z[i], P[i], xn)
        ex[i] = xn
        ez[i] = mz
        eP[i] = V.ravel()
    v.eq('nonlinear states', part[:, :lxi], ex)
    v.eq('linear means', part[:, lxi:lxi + lz], ez)
    v.eq('linear covariances', part[:, lxi + lz:], eP)
    v.eq('returned particles', r, part)
    v.unchanged('frame', (noise, m), s)

def ck_cond_predict(v):
    """the same conditioned on the nonlinear state of a future trajectory"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v)
    K = v.dim('K')
    fut = v.arr('future', K, lxi + lz + lz * lz); find = v.idx('find', K, N)
    s = v.snap((part, fut, find, m))
    ut = [v.tag('u_other'), u]; tt = [v.tag('t_other'), t]
    r = m.cond_predict_single_step(part, None, None, fut, find, ut, None, tt, 1)
    ez = np.zeros((N, lz)); eP = np.zeros((N, lz * lz))
    for i in range(N):
        (mz, V) = cond(F, i, z[i], P[i], fut[find[i], :lxi])
        ez[i] = mz
        eP[i] = V.ravel()
    v.eq('nonlinear states', r[:, :lxi], fut[find, :lxi])
    v.eq('linear means', r[:, lxi:lxi + lz], ez)
    v.eq('linear covariances', r[:, lxi + lz:], eP)
    v.unchanged('frame', (part, fut, find, m), s)

def ck_meas_xi(v):
    """linear moments given the next nonlinear state"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v)
    xn = v.arr('xi_next', N, lxi, 1)
    s = v.snap((xn, m))
    m.meas_xi_next(part, xn, u, t)
    ez = np.zeros((N, lz)); eP = np.zeros((N, lz * lz))
    for i in range(N):
        (mx, S) = marg(F, i, z[i], P[i])
        K = P[i].dot(F['Axi'][i].T).dot(np.linalg.inv(S))
        ez[i] = z[i] + K.dot(xn[i, :, 0] - mx)
        eP[i] = (P[i] - K.dot(F['Axi'][i]).dot(P[i])).ravel()
    v.eq('nonlinear states', part[:, :lxi], xi)
    v.eq('linear means', part[:, lxi:lxi + lz], ez)
    v.eq('linear covariances', part[:, lxi + lz:], eP)
    v.unchanged('frame', (xn, m), s)

MEAS = ['constant', 'per particle', 'h per particle', 'no linear part', 'no linear part, h per particle']

def measured(v, N=None):
    if N is None: N = v.dim('N')
    lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 3)
    t = v.num('t')
    how = v.choose('measurement', MEAS if v.symbolic else MEAS + ['some'])
    some = '' if v.symbolic else subset(v, 'measurement per particle', 'ChR', [''])
    if how == 'per particle': some = 'ChR'
    elif how != 'some': some = 'h' if how.endswith('h per particle') else ''
    (part, xi, z, P) = particles(v, N, lxi, lz)
    per = {}
    const = {'C': v.arr('C0', ny, lz), 'h': v.arr('h0', ny, 1), 'R': v.spd('R0', ny)}
    C = np.zeros((N, ny, lz)) + const['C']; h = np.zeros((N, ny, 1)) + const['h']; R = np.zeros((N, ny, ny)) + const['R']
    if 'R' in some:
        R = v.spd('R', ny, (N,))
        per['R'] = R
    if 'C' in some:
        per['C'] = None
        C = v.rowuf('C', N, (ny, lz), [xi], t)
    if 'h' in some:
        per['h'] = None
        h = v.rowuf('h', N, (ny, 1), [xi], t)
    if how.startswith('no linear part'):
        const['C'] = None
        C = np.zeros((N, ny, lz))
    m = Model(v, per, xi0=v.arr('xi0', lxi), z0=v.arr('z0', lz), Az=v.arr('Az0', lz, lz), fz=v.arr('fz0', lz, 1), Qz=v.spd('Qz', lz),
              Axi=v.arr('Axi0', lxi, lz), fxi=v.arr('fxi0', lxi, 1), Qxi=v.spd('Qxi', lxi), **const)
    return (m, N, lxi, lz, ny, part, xi, z, P, t, C, h, R)

def likelihood(C, h, R, y, z, P):
    """log-likelihood and posterior moments"""
    S = C.dot(P).dot(C.T) + R
    K = P.dot(C.T).dot(np.linalg.inv(S))
    e = y - h - C.dot(z)
    return (logn(e, S), z + K.dot(e), P - K.dot(C).dot(P))

def ck_measure(v):
    (m, N, lxi, lz, ny, part, xi, z, P, t, C, h, R) = measured(v)
    y = v.arr('y', ny, 1)
    s = v.snap((y, m))
    lp = m.measure(part, y, t)
    e = np.zeros((N,)); ez = np.zeros((N, lz)); eP = np.zeros((N, lz * lz))
    for i in range(N):
        (l, mz, V) = likelihood(C[i], h[i, :, 0], R[i], y[:, 0], z[i], P[i])
        e[i] = l
        ez[i] = mz
        eP[i] = V.ravel()
    v.eq('log-likelihood', lp, e)
    v.eq('nonlinear states', part[:, :lxi], xi)
    v.eq('linear means', part[:, lxi:lxi + lz], ez)
    v.eq('linear covariances', part[:, lxi + lz:], eP)
    v.unchanged('frame', (y, m), s)

def ck_transition(v):
    """transition density of (xi, z)"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v)
    one = v.choose('next', ['each its own', 'one for all']) == 'one for all'
    nxt = v.arr('next', 1 if one else N, lxi + lz)
    s = v.snap((part, nxt, m))
    lp = m.logp_xnext(part, nxt, u, t)
    e = np.zeros((N,))
    for i in range(N):
        (mx, S) = joint(F, i, z[i], P[i])
        e[i] = logn(nxt[0 if one else i] - mx, S)
    v.eq('transition log-density', lp, e)
    v.unchanged('frame', (part, nxt, m), s)

def ck_transition_xi(v):
    """transition density of the nonlinear states alone"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v)
    K = v.dim('K')
    fut = v.arr('future', K, lxi + lz + lz * lz); find = v.idx('find', K, N)
    ut = [v.tag('u_other'), u]; tt = [v.tag('t_other'), t]
    s = v.snap((part, fut, find, m))
    lp = m.logp_xnext_singlestep(part, None, None, fut, find, ut, None, tt, 1)
    e = np.zeros((N,))
    for i in range(N):
        (mx, S) = marg(F, i, z[i], P[i])
        e[i] = logn(fut[find[i], :lxi] - mx, S)
    v.eq('transition log-density', lp, e)
    v.unchanged('frame', (part, fut, find, m), s)

def ck_bound(v):
    """the reported maximum is the largest transition density any particle can attain"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v)
    s = v.snap((part, m))
    b = m.logp_xnext_max(part, u, t)
    e = np.zeros((N,))
    for i in range(N):
        e[i] = logn(np.zeros((lxi + lz,)), joint(F, i, z[i], P[i])[1])
    v.eq('bound', b, np.max(e))
    v.unchanged('frame', (part, m), s)

def ck_first_stage(v):
    """auxiliary weights: likelihood of y at the following time given the predicted nonlinear state"""
    N = v.dim('N')
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v, N, ['some per particle'] if v.symbolic else ['constant', 'some per particle'])
    ny = v.dim('ny', 1, 3)
    t = v.num('t')
    for k in ['Axi', 'fxi', 'Az', 'fz', 'Qxiz']:
        if k in m.per: F[k] = dyn(v, k, m.per[k], xi, lxi, lz, u, t)
    m.per['C'] = m.per['h'] = None
    R = v.spd('R', ny)
    m.set_dynamics(R=R)
    y = v.arr('y', ny, 1)
    s = v.snap((part, y, m))
    lp = m.eval_1st_stage_weights(part, u, y, t)
    xn = np.zeros((N, lxi))
    for i in range(N):
        xn[i] = marg(F, i, z[i], P[i])[0]
    C = v.rowuf('C', N, (ny, lz), [xn], t + 1)
    h = v.rowuf('h', N, (ny, 1), [xn], t + 1)
    e = np.zeros((N,))
    for i in range(N):
        (mz, V) = cond(F, i, z[i], P[i], xn[i])
        e[i] = likelihood(C[i], h[i, :, 0], R, y[:, 0], mz, V)[0]
    v.eq('first stage weights', lp, e)
    v.unchanged('frame', (part, y, m), s)

def ck_sample_smooth(v):
    """backward sampling of the linear states: exact Gaussian conditional given the sampled next state"""
    M = v.dim('M')
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v, M, ['some per particle', 'constant, uncorrelated'] if v.symbolic else COMBOS)
    K = v.dim('K')
    ut = [v.tag('u_other'), u]; tt = [v.tag('t_other'), t]
    nxt = v.arr('next', K, lxi + lz); find = v.idx('find', K, M)
    last = v.choose('position', ['inside', 'last']) == 'last'
    ft = None if last else [Step(nxt), Step(v.arr('later', K, lxi + lz))]
    s = v.snap((part, nxt, find, m))
    (mean, cov) = v.moments(lambda: m.sample_smooth(part, None, None, ft, find, ut, None, tt, 1))
    ez = np.zeros((M, lz)); V = np.zeros((M, lz, M, lz))
    for j in range(M):
        if last:
            ez[j] = z[j]
            V[j, :, j, :] = P[j]
        elif v.symbolic:        # conditioning on xi', then on z' given xi'
            xn = nxt[find[j], :lxi]
            (mx, S) = marg(F, j, z[j], P[j])
            K = P[j].dot(F['Axi'][j].T).dot(np.linalg.inv(S))
            z1 = z[j] + K.dot(xn - mx)
            P1 = P[j] - K.dot(F['Axi'][j]).dot(P[j])
            W = F['Qxiz'][j].T.dot(np.linalg.inv(F['Qxi'][j]))
            A = F['Az'][j] - W.dot(F['Axi'][j])
            f = F['fz'][j][:, 0] + W.dot(xn - F['fxi'][j][:, 0])
            K = P1.dot(A.T).dot(np.linalg.inv(A.dot(P1).dot(A.T) + F['Qz'][j] - W.dot(F['Qxiz'][j])))
            ez[j] = z1 + K.dot(nxt[find[j], lxi:] - A.dot(z1) - f)
            V[j, :, j, :] = P1 - K.dot(A).dot(P1)
        else:                   # conditioning on both at once
            (mx, S) = joint(F, j, z[j], P[j])
            A = np.vstack((F['Axi'][j], F['Az'][j]))
            G = P[j].dot(A.T).dot(np.linalg.inv(S))
            ez[j] = z[j] + G.dot(nxt[find[j]] - mx)
            V[j, :, j, :] = P[j] - G.dot(S).dot(G.T)
    v.eq('nonlinear states', mean[:, :lxi], xi)
    v.eq('mean of the linear states', mean[:, lxi:], ez)
    v.eq('covariance of the linear states', cov[:, lxi:, :, lxi:], V)
    v.eq('nonlinear states are not random', cov[:, :lxi, :, :lxi], np.zeros((M, lxi, M, lxi)))
    v.unchanged('frame', (part, nxt, find, m), s)

def ck_smoothed(v):
    """smoothed linear states are the exact conditional moments given the whole nonlinear trajectory and all measurements"""
    M = v.dim('M'); T = v.choose('T', [1, 2, 3])
    (m, lxi, lz, ny, sel) = linear(v)
    smoothed(v, m, M, T, lxi, lz, ny)

def linear(v, Class=Model):
    """model whose matrices are functions of xi, u and t"""
    lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 2); ny = v.dim('ny', 1, 2)
    const = {'Axi': v.arr('Axi0', lxi, lz), 'fxi': v.arr('fxi0', lxi, 1), 'Az': v.arr('Az0', lz, lz), 'fz': v.arr('fz0', lz, 1),
             'C': v.arr('C0', ny, lz), 'h': v.arr('h0', ny, 1), 'R': v.spd('R0', ny)}
    (const['Qxi'], const['Qz'], const['Qxiz']) = covariances(v, (), lxi, lz)
    per = {}
    how = v.choose('matrices', ['constant', 'functions of the nonlinear state'])
    if how != 'constant': per = {'Axi': None, 'fz': None, 'h': None, 'C': None, 'Az': None}
    m = Class(v, per, xi0=v.arr('xi0', lxi), z0=v.arr('z0', lz), Pz0=v.spd('Pz0', lz), **const)
    m.const = const
    return (m, lxi, lz, ny, how)

def smoothed(v, m, M, T, lxi, lz, ny):
    st = trajectories(v, M, lxi + lz + lz * lz, T, ny)
    s = v.snap(st)
    r = m.post_smoothing(st)
    def at(name, k, j):
        xi = st.traj[k].pa.part[:, :lxi]
        if name not in m.per: return m.const[name]
        if name in ('C', 'h'): return v.rowuf(name, M, (ny, lz) if name == 'C' else (ny, 1), [xi], st.t[k])[j]
        return dyn(v, name, None, xi, lxi, lz, st.u[k], st.t[k])[j]
    def dynamics(st, k, j):
        Q = np.vstack((np.hstack((m.const['Qxi'], m.const['Qxiz'])), np.hstack((m.const['Qxiz'].T, m.const['Qz']))))
        return (np.vstack((at('Axi', k, j), at('Az', k, j))), np.hstack((at('fxi', k, j)[:, 0], at('fz', k, j)[:, 0])), Q)
    def measurement(st, k, j):
        return (at('C', k, j), at('h', k, j)[:, 0], m.const['R'])
    compare(v, m, st, r, lambda st, j: (m.z0.ravel(), m.Pz0), dynamics, measurement, lxi, lz)
    v.unchanged('frame', st, s)

def ck_proposal(v):
    """the default smoothing proposal runs the dynamics of the preceding step from each ancestor, and its density is theirs"""
    (m, N, lxi, lz, part, xi, z, P, u, t, F) = setup(v, None, ['some per particle'] if v.symbolic else [k for k in COMBOS if k != 'per particle'], [])
    M = v.dim('M'); anc = v.idx('anc', N, M)
    ut = [v.tag('u0'), u, v.tag('u2')]; tt = [v.tag('t0'), t, v.tag('t2')]; yt = [v.tag('y0'), v.tag('y1'), v.tag('y2')]
    ptraj = [Step(v.arr('older', N, lxi + lz + lz * lz)), Step(part)]
    ptraj[1].ancestors = v.idx('older anc', N, N)
    s = v.snap((part, anc, ptraj[1].ancestors))
    find = np.arange(M)
    (mean, cov) = v.moments(lambda: m.propose_smooth(ptraj, anc, None, find, yt, ut, tt, 2)[:, :lxi])
    ex = np.zeros((M, lxi)); eS = np.zeros((M, lxi, M, lxi))
    for i in range(M):
        (mx, S) = marg(F, anc[i], z[anc[i]], P[anc[i]])
        ex[i] = mx
        eS[i, :, i, :] = S
    v.eq('mean of the proposed nonlinear states', mean, ex)
    v.eq('their covariance', cov, eS)
    noise = v.arr('noise', M, lxi)
    draw = m.sample_process_noise
    m.sample_process_noise = lambda particles, u, t: noise
    r = m.propose_smooth(ptraj, anc, None, find, yt, ut, tt, 2)
    m.sample_process_noise = draw
    ez = np.zeros((M, lz)); eP = np.zeros((M, lz * lz))
    for i in range(M):
        a = anc[i]
        (mz, V) = cond(F, a, z[a], P[a], ex[i] + noise[i])
        ez[i] = mz
        eP[i] = V.ravel()
    v.eq('proposed nonlinear states', r[:, :lxi], ex + noise)
    v.eq('linear means given them', r[:, lxi:lxi + lz], ez)
    v.eq('linear covariances given them', r[:, lxi + lz:], eP)
    prop = v.arr('prop', M, lxi + lz + lz * lz)
    lp = m.logp_proposal(prop, ptraj, anc, None, find, yt, ut, tt, 2)
    e = np.zeros((M,))
    for i in range(M):
        (mx, S) = marg(F, anc[i], z[anc[i]], P[anc[i]])
        e[i] = logn(prop[i, :lxi] - mx, S)
    v.eq('log-density of the proposal', lp, e)
    v.unchanged('frame', (part, anc, ptraj[1].ancestors), s)

def ck_proposal_initial(v):
    """with nothing before it the proposal draws from the initial distribution"""
    M = v.dim('M'); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3)
    x0 = v.arr('xi0', lxi); z0 = v.arr('z0', lz); Pxi = v.spd('Pxi0', lxi); Pz = v.spd('Pz0', lz)
    m = Model(v, {}, xi0=x0, z0=z0, Pxi0=Pxi, Pz0=Pz, R=np.eye(1), C=np.zeros((1, lz)), h=np.zeros((1, 1)), Axi=v.arr('Axi0', lxi, lz),
              fxi=v.arr('fxi0', lxi, 1), Az=v.arr('Az0', lz, lz), fz=v.arr('fz0', lz, 1), Qxi=v.spd('Qxi', lxi), Qz=v.spd('Qz', lz))
    ut = [v.tag('u0')]; tt = [v.tag('t0')]; yt = [v.tag('y0')]
    s = v.snap(m)
    find = np.arange(M)
    (mean, cov) = v.moments(lambda: m.propose_smooth(None, None, None, find, yt, ut, tt, 0))
    D = lxi + lz + lz * lz
    e = np.zeros((M, D)); S = np.zeros((M, D, M, D))
    for i in range(M):
        e[i, :lxi] = x0
        e[i, lxi:lxi + lz] = z0
        e[i, lxi + lz:] = Pz.ravel()
        S[i, :lxi, i, :lxi] = Pxi
    v.eq('mean of the proposed states', mean, e)
    v.eq('their covariance', cov, S)
    v.unchanged('model', m, s)

CONF = {'budget': 300, 'split': {'ck_transition': 4, 'ck_forward': 5, 'ck_backward': 3, 'ck_sample_smooth': 3, 'ck_first_stage': 2}}
CONTRACTS = ['ck_noise', 'ck_update', 'ck_cond_predict', 'ck_meas_xi', 'ck_measure', 'ck_transition', 'ck_transition_xi', 'ck_bound',
             'ck_first_stage', 'ck_sample_smooth', 'ck_forward', 'ck_backward', 'ck_smoothed', 'ck_proposal', 'ck_proposal_initial']
SYM = {'ck_smoothed': 'bounded'}
