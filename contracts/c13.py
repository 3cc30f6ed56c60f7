"""P13: nonlinear Gaussian models: densities and sampling match the model."""
import math
import numpy as np
import pyparticleest.models.nlg as nlg

class Model(nlg.NonlinearGaussianInitialGaussian):
    """user model; mean functions and covariances are either constants or arbitrary functions of (particle, u, t)"""
    def __init__(self, v, m, fs, Qs, gs, Rs, x0, Px0, lxi, const):
        self.v = v
        self.m = m
        self.fs = fs
        self.Qs = Qs
        self.gs = gs
        self.Rs = Rs
        nlg.NonlinearGaussianInitialGaussian.__init__(self, x0=x0, Px0=Px0, lxi=lxi, **const)

    def calc_f(self, particles, u, t):
        if not self.fs: return None
        return self.v.rowuf('f', len(particles), (self.lxi,), [particles], u, t)

    def calc_g(self, particles, t):
        if not self.gs: return None
        return self.v.rowuf('g', len(particles), (self.m,), [particles], t)

    def calc_Q(self, particles, u, t): return self.Qs
    def calc_R(self, particles, t): return self.Rs

def logn(e, S):
    return -0.5 * (len(e) * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + e.dot(np.linalg.inv(S)).dot(e))

def setup(v, dyn, meas):
    """(model, particle count, ...) with the covariance Q_i, R_i and mean functions in force for every particle"""
    N = v.dim('N'); D = v.dim('D'); m = v.dim('m')
    part = v.arr('part', N, D)
    u = v.tag('u'); t = v.tag('t')
    const = {}
    (fs, Qs, gs, Rs) = (False, None, False, None)
    (F, Q, G, R) = (None, None, None, None)
    if dyn:
        if v.choose('f', ['constant', 'function']) == 'constant':
            const['f'] = v.arr('f0', D)
            F = np.zeros((N, D)) + const['f']
        else:
            fs = True
            F = v.rowuf('f', N, (D,), [part], u, t)
        how = v.choose('Q', ['constant', 'set later', 'per particle'])
        if how == 'per particle':
            Q = v.spd('Q', D, (N,)); Qs = Q
        else:
            Q1 = v.spd('Q', D)
            Q = np.zeros((N, D, D)) + Q1
            const['Q'] = Q1 if how == 'constant' else np.eye(D)
    if meas:
        if v.choose('g', ['constant', 'function']) == 'constant':
            const['g'] = v.arr('g0', m)
            G = np.zeros((N, m)) + const['g']
        else:
            gs = True
            G = v.rowuf('g', N, (m,), [part], t)
        how2 = v.choose('R', ['constant', 'set later', 'per particle'])
        if how2 == 'per particle':
            R = v.spd('R', m, (N,)); Rs = R
        else:
            R1 = v.spd('R', m)
            R = np.zeros((N, m, m)) + R1
            const['R'] = R1 if how2 == 'constant' else np.eye(m)
    mod = Model(v, m, fs, Qs, gs, Rs, None, None, D, const)
    if dyn and how == 'set later': mod.set_Q(Q1)
    if meas and how2 == 'set later': mod.set_R(R1)
    return (mod, N, D, m, part, u, t, F, Q, G, R)

def ck_update(v):
    (mod, N, D, m, part, u, t, F, Q, G, R) = setup(v, True, False)
    noise = v.arr('noise', N, D)
    s = v.snap((noise, mod))
    r = mod.update(part, u, t, noise)
    v.eq('next state', r, F + noise)
    v.eq('particles are updated', part, F + noise)
    v.unchanged('frame', (noise, mod), s)

def ck_noise(v):
    (mod, N, D, m, part, u, t, F, Q, G, R) = setup(v, True, False)
    s = v.snap(part)
    (mean, cov) = v.moments(lambda: mod.sample_process_noise(part, u, t))
    v.eq('mean', mean, np.zeros((N, D)))
    e = np.zeros((N, D, N, D))
    for i in range(N):
        e[i, :, i, :] = Q[i]
    v.eq('covariance', cov, e)
    v.unchanged('particles', part, s)

def ck_measure(v):
    (mod, N, D, m, part, u, t, F, Q, G, R) = setup(v, False, True)
    y = v.arr('y', m)
    arg = y if v.choose('y', ['flat', 'column']) == 'flat' else y.reshape((m, 1))
    s = v.snap((part, arg, mod))
    lp = mod.measure(part, arg, t)
    e = np.zeros((N,))
    for i in range(N):
        e[i] = logn(y - G[i], R[i])
    v.eq('measurement log-density', lp, e)
    v.unchanged('frame', (part, arg, mod), s)

def ck_first_stage(v):
    """first stage weights: measurement density (at the time following t) of the noise-free next state"""
    N = v.dim('N'); D = v.dim('D'); m = v.dim('m')
    part = v.arr('part', N, D)
    u = v.tag('u'); t = v.num('t')
    R = v.spd('R', m)
    y = v.arr('y', m)
    mod = Model(v, m, True, None, True, None, None, None, D, {'R': R, 'Q': v.spd('Q', D)})
    s = v.snap(part)
    lp = mod.eval_1st_stage_weights(part, u, y, t)
    nxt = v.rowuf('f', N, (D,), [part], u, t)
    G = v.rowuf('g', N, (m,), [nxt], t + 1)
    e = np.zeros((N,))
    for i in range(N):
        e[i] = logn(y - G[i], R)
    v.eq('first stage weight', lp, e)
    v.unchanged('particles', part, s)

def ck_transition(v):
    (mod, N, D, m, part, u, t, F, Q, G, R) = setup(v, True, False)
    nxt = v.arr('next', N, D)
    s = v.snap((part, nxt, mod))
    lp = mod.logp_xnext(part, nxt, u, t)
    e = np.zeros((N,))
    for i in range(N):
        e[i] = logn(nxt[i] - F[i], Q[i])
    v.eq('transition log-density', lp, e)
    v.unchanged('frame', (part, nxt, mod), s)

def ck_bound(v):
    """logp_xnext_max is the largest log-density any of the particles can attain"""
    (mod, N, D, m, part, u, t, F, Q, G, R) = setup(v, True, False)
    s = v.snap((part, mod))
    b = mod.logp_xnext_max(part, u, t)
    e = np.zeros((N,))
    for i in range(N):
        e[i] = logn(np.zeros((D,)), Q[i])
    v.eq('bound', b, np.max(e))
    v.unchanged('frame', (part, mod), s)

def ck_bound_holds(v):
    """no transition log-density exceeds the bound"""
    (mod, N, D, m, part, u, t, F, Q, G, R) = setup(v, True, False)
    nxt = v.arr('next', N, D)
    if not v.symbolic: nxt[0] = F[0]
    b = mod.logp_xnext_max(part, u, t)
    i = v.index('i', N)
    lp = mod.logp_xnext(part, nxt, u, t)
    v.le('transition log-density', lp[i] + 0.5 * v.quad(nxt[i] - F[i], Q[i]), b)

def initial(v):
    N = v.dim('N'); D = v.dim('D')
    how = v.choose('initial', ['mean and covariance', 'mean', 'covariance', 'size only'])
    x0 = v.arr('x0', D) if how in ('mean and covariance', 'mean') else np.zeros((D,))
    P0 = v.spd('P0', D) if how in ('mean and covariance', 'covariance') else np.zeros((D, D))
    arg = x0
    if v.choose('shape', ['flat', 'column']) == 'column': arg = x0.reshape((D, 1))
    mod = Model(v, 1, True, None, True, None, arg if how in ('mean and covariance', 'mean') else None,
                P0 if how in ('mean and covariance', 'covariance') else None, D if how == 'size only' else None,
                {'Q': np.eye(D), 'R': np.eye(1)})
    return (N, D, how, x0, P0, mod)

def ck_initial(v):
    (N, D, how, x0, P0, mod) = initial(v)
    s = v.snap(mod)
    (mean, cov) = v.moments(lambda: mod.create_initial_estimate(N))
    v.eq('mean', mean, np.zeros((N, D)) + x0)
    e = np.zeros((N, D, N, D))
    for i in range(N):
        e[i, :, i, :] = P0
    v.eq('covariance', cov, e)
    v.unchanged('model', mod, s)

def ck_initial_density(v):
    (N, D, how, x0, P0, mod) = initial(v)
    part = v.arr('part', N, D)
    v.assume(how in ('mean and covariance', 'covariance'))
    s = v.snap((part, mod))
    lp = mod.eval_logp_x0(part, v.tag('t'))
    e = np.zeros((N,))
    for i in range(N):
        e[i] = logn(part[i] - x0, P0)
    v.eq('initial log-density', lp, e)
    v.unchanged('frame', (part, mod), s)

def ck_initial_density_point(v):
    """known initial state: density is concentrated at it"""
    (N, D, how, x0, P0, mod) = initial(v)
    v.assume(how in ('mean', 'size only'))
    part = np.zeros((N, D)) + x0
    v.eq('at the initial state', mod.eval_logp_x0(part, v.tag('t')), np.zeros((N,)))
    part = part + v.arr('off', N, D)
    e = np.zeros((N,))
    for i in range(N):
        if not np.array_equal(part[i], x0):
            e[i] = -np.inf
    v.eq('elsewhere', mod.eval_logp_x0(part, v.tag('t')), e)

def ck_proposal(v):
    """the default smoothing proposal samples from the dynamics of the preceding step, and its density is that of the dynamics"""
    N = v.dim('N'); D = v.dim('D'); M = v.dim('M')
    k = v.choose('step', [0, 2])
    x0 = v.arr('x0', D); P0 = v.spd('P0', D); Q = v.spd('Q', D)
    mod = Model(v, 1, True, None, True, None, x0, P0, None, {'Q': Q, 'R': np.eye(1)})
    prev = v.arr('prev', N, D); anc = v.idx('anc', N, M)
    u = [v.tag('u%d' % j) for j in range(4)]; t = [v.tag('t%d' % j) for j in range(4)]; y = [v.tag('y%d' % j) for j in range(4)]
    ptraj = None if k == 0 else [Step(v.arr('older', N, D)), Step(prev)]
    s = v.snap((prev, anc))
    find = np.arange(M)
    if k == 0:
        (F, V) = (np.zeros((M, D)) + x0, P0)
    else:
        (F, V) = (v.rowuf('f', M, (D,), [prev[anc]], u[k - 1], t[k - 1]), Q)
    (mean, cov) = v.moments(lambda: mod.propose_smooth(ptraj, None if k == 0 else anc, None, find, y, u, t, k))
    v.eq('mean of the proposal', mean, F)
    e = np.zeros((M, D, M, D))
    for i in range(M):
        e[i, :, i, :] = V
    v.eq('covariance of the proposal', cov, e)
    x = v.arr('prop', M, D)
    lp = mod.logp_proposal(x, ptraj, None if k == 0 else anc, None, find, y, u, t, k)
    e = np.zeros((M,))
    for i in range(M):
        e[i] = logn(x[i] - F[i], V)
    v.eq('log-density of the proposal', lp, e)
    v.unchanged('frame', (prev, anc), s)

class Box(object):
    def __init__(self, part): self.part = part

class Step(object):
    def __init__(self, part): self.pa = Box(part)

CONTRACTS = ['ck_update', 'ck_noise', 'ck_measure', 'ck_first_stage', 'ck_transition', 'ck_bound', 'ck_bound_holds', 'ck_initial',
             'ck_initial_density', 'ck_initial_density_point', 'ck_proposal']
