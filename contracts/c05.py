"""P05: one step of the bootstrap filter and of the SIR filter."""
import numpy as np
import pyparticleest.filter as pf
import contracts.stubs as S

def setup(v, N_lo=1):
    N = v.dim('N', N_lo, 5); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', S.longer(v, [1, 2, 3], [9]))
    (traj, u, y, t) = S.history(v, N, D, T)
    res = 0
    if v.choose('resampling', ['disabled', 'enabled']) == 'enabled':
        res = v.posnum('res') if v.symbolic else v.choose('threshold', [0.3, 0.7, 1.0])
    return (N, D, traj, u, y, t, res, T - 1)

def neff(w):
    p = S.softmax(w)
    return 1.0 / np.sum(p * p)

def ancestors(v, N, f, traj, out, w, res):
    """which ancestors a step reports, and when it resamples"""
    (pa, resampled, anc) = f()
    if resampled:
        v.check('resampling was enabled', res > 0)
        v.check('resamples only below the threshold', neff(w) < res * N)
        v.lowvar('ancestors', lambda: f()[2] if False else keep(out, f()), S.softmax(w), N)
        return out[-1]
    v.check('does not resample only when disabled or above the threshold', True if res == 0 else neff(w) >= res * N)
    v.eq('ancestors', anc, np.arange(N))
    return (pa, resampled, anc)

def keep(out, r):
    out.append(r)
    return r[2]

def ck_pf_step(v):
    (N, D, traj, u, y, t, res, k) = setup(v)
    m = S.PFModel(v, D)
    f = S.used_filter(v, pf.ParticleFilter(m, res), N, D, k + 1)
    w = traj[k].pa.w; x = traj[k].pa.part
    (pa, resampled, anc) = ancestors(v, N, lambda: f.forward(traj, y, u, t, k), traj, [], w, res)
    x0 = x[anc]
    noise = v.rowuf('noise', N, (D,), [x0], u[k], t[k])
    x1 = v.rowuf('f', N, (D,), [x0, noise], u[k], t[k])
    g = v.rowuf('g', N, (), [x1], y[k + 1], t[k + 1])
    prev = -np.log(N) * np.ones(N) if resampled else w
    v.eq('propagated particles', pa.part, x1)
    v.eq('log-weights plus offset', pa.w + pa.w_offset, prev + g)
    v.eq('largest stored log-weight', np.max(pa.w), 0.0)
    v.eq('number of particles', len(pa), N)

def ck_pf_step_nomeas(v):
    """no measurement vector: plain prediction"""
    (N, D, traj, u, y, t, res, k) = setup(v)
    m = S.PFModel(v, D)
    f = pf.ParticleFilter(m, res)
    w = traj[k].pa.w
    M = v.dim('M', 1, 5); anc = v.idx('selected', N, M)
    s = v.snap((traj, anc))
    pa = f.update(traj, anc, u, y, t, k, None, inplace=False)
    x0 = traj[k].pa.part[anc]
    noise = v.rowuf('noise', M, (D,), [x0], u[k], t[k])
    v.eq('propagated particles', pa.part, v.rowuf('f', M, (D,), [x0, noise], u[k], t[k]))
    v.eq('weights', pa.w, w[anc])
    v.disjoint('copy', pa, traj)
    v.unchanged('recorded steps', (traj, anc), s)

def ck_pf_measure(v):
    N = v.dim('N', 1, 5); D = v.dim('D', 1, 2)
    (traj, u, y, t) = S.history(v, N, D, 2)
    cls = {'PF': pf.ParticleFilter, 'SIR': pf.SIR}[v.choose('filter', ['PF', 'SIR'])]
    f = cls(S.PFModel(v, D), 0.5)
    pa = pf.ParticleApproximation(v.arr('x', N, D), v.lw('lw', N))
    w0 = pa.w.copy(); off = v.num('offset'); pa.w_offset = off
    x0 = pa.part.copy()
    s0 = v.snap((traj, pa))
    inplace = v.choose('in place', [True, False])
    r = f.measure(traj, np.arange(N), pa, u, y, t, 2, inplace=inplace)
    g = v.rowuf('g', N, (), [x0], y[2], t[2])
    v.eq('log-weights plus offset', r.w + r.w_offset, w0 + off + g)
    v.eq('largest stored log-weight', np.max(r.w), 0.0)
    v.eq('particles', r.part, x0)
    v.unchanged('recorded steps', traj, s0[0])
    if inplace:
        v.same('returned object', r, pa)
    else:
        v.unchanged('approximation', pa, s0[1])

def ck_sir_step(v):
    (N, D, traj, u, y, t, res, k) = setup(v)
    m = S.PFModel(v, D)
    f = S.used_filter(v, pf.SIR(m, res), N, D, k + 1)
    w = traj[k].pa.w; x = traj[k].pa.part
    (pa, resampled, anc) = ancestors(v, N, lambda: f.forward(traj, y, u, t, k), traj, [], w, res)
    x0 = x[anc]
    x1 = v.rowuf('q', N, (D,), [x0], u[k], y[k + 1], t[k])
    qw = v.rowuf('lq', N, (), [x0, x1], u[k], y[k + 1], t[k])
    nw = v.rowuf('lp', N, (), [x0, x1], u[k], t[k])
    g = v.rowuf('g', N, (), [x1], y[k + 1], t[k + 1])
    prev = -np.log(N) * np.ones(N) if resampled else w
    v.eq('proposed particles', pa.part, x1)
    v.eq('log-weights plus offset', pa.w + pa.w_offset, prev + g + nw - qw)
    v.eq('largest stored log-weight', np.max(pa.w), 0.0)
    v.eq('number of particles', len(pa), N)

def ck_initial(v):
    """the initial particles are the model's, for the number asked for"""
    N = v.dim('N', 1, 5); D = v.dim('D', 1, 2); n0 = v.dim('other number', 1, 5)
    m = S.PFModel(v, D)
    asked = []
    x0 = v.arr('x0', N, D)
    def initial(n):
        asked.append(n)
        return x0.copy()
    m.create_initial_estimate = initial
    kind = v.choose('filter', ['PF', 'SIR', 'APF', 'PFY'])
    f = pf.FFPropY(m, n0, 0.5) if kind == 'PFY' else {'PF': pf.ParticleFilter, 'SIR': pf.SIR, 'APF': pf.AuxiliaryParticleFilter}[kind](m, 0.5)
    x = f.create_initial_estimate(N)
    v.eq('initial particles come from the model', x, x0)
    v.eq('number asked for', asked, [N])

CONTRACTS = ['ck_pf_step', 'ck_pf_step_nomeas', 'ck_pf_measure', 'ck_sir_step', 'ck_initial']
