"""P06: auxiliary particle filter; filter proposing from the measurement."""
import numpy as np
import pyparticleest.filter as pf
import contracts.stubs as S

def keep(out, r):
    out.append(r)
    return r[2]

def neff(w):
    p = S.softmax(w)
    return 1.0 / np.sum(p * p)

def run(v, N, fwd, w, res):
    """one step; `w` are the log-weights that decide whether and how to resample"""
    (pa, resampled, anc) = fwd()
    if resampled:
        v.check('resampling was enabled', res > 0)
        v.check('resamples only below the threshold', neff(w) < res * N)
        out = []
        v.lowvar('ancestors', lambda: keep(out, fwd()), S.softmax(w), N)
        return out[0]
    v.check('does not resample only when disabled or above the threshold', True if res == 0 else neff(w) >= res * N)
    v.eq('ancestors', anc, np.arange(N))
    return (pa, resampled, anc)

def setup(v, missing):
    N = v.dim('N', 1, 5); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', S.longer(v, [1, 2, 3], [9]))
    (traj, u, y, t) = S.history(v, N, D, T, missing)
    res = 0
    if v.choose('resampling', ['disabled', 'enabled']) == 'enabled':
        res = v.posnum('res') if v.symbolic else v.choose('threshold', [0.3, 0.7, 1.0])
    return (N, D, T, traj, u, y, t, res)

def shifted(v, label, w, ref):
    """w equals ref up to an additive constant, and the largest entry is zero"""
    v.eq(label, w, ref - np.max(ref))

def ck_apf(v):
    (N, D, T, traj, u, y, t, res) = setup(v, False)
    k = T - 1
    f = S.used_filter(v, pf.AuxiliaryParticleFilter(S.PFModel(v, D), res), N, D, T)
    x = traj[k].pa.part; w = traj[k].pa.w
    l1 = v.rowuf('l1', N, (), [x], u[k], y[k + 1], t[k])
    (pa, resampled, anc) = run(v, N, lambda: f.forward(traj, y, u, t, k), w + l1, res)
    x0 = x[anc]
    noise = v.rowuf('noise', N, (D,), [x0], u[k], t[k])
    x1 = v.rowuf('f', N, (D,), [x0, noise], u[k], t[k])
    g = v.rowuf('g', N, (), [x1], y[k + 1], t[k + 1])
    v.eq('propagated particles', pa.part, x1)
    if resampled:
        shifted(v, 'weights: likelihood over first-stage weight of the ancestor', pa.w, g - l1[anc])
    else:
        shifted(v, 'weights: those of the bootstrap filter', pa.w, w + g)
    v.eq('number of particles', len(pa), N)

class Missing(S.PFModel):
    """interface rule: measure is also called for a missing measurement and then only sees None"""
    def measure(self, particles, y, t):
        if y is None:
            return np.zeros(len(particles))
        return self.v.rowuf('g', len(particles), (), [particles], y, t)

def ck_apf_missing(v):
    (N, D, T, traj, u, y, t, res) = setup(v, True)
    k = T - 1
    f = S.used_filter(v, pf.AuxiliaryParticleFilter(Missing(v, D), res), N, D, T)
    x = traj[k].pa.part; w = traj[k].pa.w
    (pa, resampled, anc) = run(v, N, lambda: f.forward(traj, y, u, t, k), w, res)
    x0 = x[anc]
    noise = v.rowuf('noise', N, (D,), [x0], u[k], t[k])
    v.eq('propagated particles', pa.part, v.rowuf('f', N, (D,), [x0, noise], u[k], t[k]))
    if resampled:
        v.eq('uniform weights', pa.w, np.zeros(N))
    else:
        shifted(v, 'weights', pa.w, w)

def ck_ffpropy(v):
    (N, D, T, traj, u, y, t, res) = setup(v, False)
    k = T - 1
    f = S.used_filter(v, pf.FFPropY(S.PFModel(v, D), N, res), N, D, T)
    x = traj[k].pa.part; w = traj[k].pa.w
    (pa, resampled, anc) = run(v, N, lambda: f.forward(traj, y, u, t, k), w, res)
    x1 = v.rowuf('qy', N, (D,), [np.arange(N)], y[k + 1], t[k + 1])
    lp = v.rowuf('lp', N, (), [x[anc], x1], u[k], t[k])
    prev = -np.log(N) * np.ones(N) if resampled else w
    v.eq('particles proposed from the measurement of this step', pa.part, x1)
    v.eq('log-weights plus offset', pa.w + pa.w_offset, prev + lp)
    v.eq('largest stored log-weight', np.max(pa.w), 0.0)

def ck_ffpropy_measure(v):
    N = v.dim('N', 1, 5); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', [1, 2])
    (traj, u, y, t) = S.history(v, N, D, T)
    f = pf.FFPropY(S.PFModel(v, D), N, 0.5)
    pa = f.measure(traj=traj, ancestors=np.arange(N), pa=None, uvec=u, yvec=y, tvec=t, cur_ind=T, inplace=False)
    v.eq('particles', pa.part, v.rowuf('qy', N, (D,), [np.arange(N)], y[T], t[T]))
    v.eq('uniform weights', S.softmax(pa.w), np.ones(N) / N)

CONTRACTS = ['ck_apf', 'ck_apf_missing', 'ck_ffpropy', 'ck_ffpropy_measure']
