"""P08: conditional particle filters keep the reference trajectory and weight it like any other particle."""
import numpy as np
import pyparticleest.filter as pf
import contracts.stubs as S

FILTERS = {'CPF': pf.CPF, 'CPFAS': pf.CPFAS, 'CSIRAS': pf.CSIRAS}

def make(v, kind, N, D, ref):
    m = S.PFModel(v, D)
    if kind == 'CPFYAS':
        return pf.CPFYAS(m, N, ref)
    return FILTERS[kind](m, ref)

def setup(v, kind, missing):
    N = v.dim('N', 2, 6); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', [1, 3])
    (traj, u, y, t) = S.history(v, N, D, T, missing)
    ref = S.reference(v, D, T)
    return (N, D, T - 1, traj, u, y, t, ref, S.used_filter(v, make(v, kind, N, D, ref), N, D, T))

def ancestors(v, fwd, kind, N, w, k, refx, u, t, x):
    out = []
    def keep(r):
        out.append(r)
        return r[2][:-1]
    v.lowvar('other ancestors', lambda: keep(fwd()), S.softmax(w), N - 1)
    (pa, resampled, anc) = out[0]
    if kind == 'CPF':
        v.eq("reference's ancestor is the previous reference", anc[-1], N - 1)
    else:
        lp = v.rowuf('lp', N, (), [x, np.ones((N, 1)) * refx], u, t)
        p = S.softmax(w + lp)
        v.categorical("reference's ancestor", lambda: fwd()[2][-1:], np.ones((1, 1)) * p)
    return (pa, resampled, anc)

def body(v, kind, missing):
    (N, D, k, traj, u, y, t, ref, f) = setup(v, kind, missing)
    x = traj[k].pa.part; w = traj[k].pa.w
    refx = ref[k + 1].pa.part
    (pa, resampled, anc) = ancestors(v, lambda: f.forward(traj, y, u, t, k), kind, N, w, k, refx, u[k], t[k], x)
    v.check('reported as resampled', resampled)
    v.eq('number of particles', len(pa), N)
    v.eq('reference state is the last particle', pa.part[-1], refx[0])
    x0 = x[anc]
    if kind == 'CSIRAS':
        x1 = v.rowuf('q', N, (D,), [x0], u[k], y[k + 1], t[k])
    elif kind == 'CPFYAS':
        x1 = v.rowuf('qy', N, (D,), [np.arange(N)], y[k + 1], t[k + 1])
    else:
        noise = v.rowuf('noise', N, (D,), [x0], u[k], t[k])
        x1 = v.rowuf('f', N, (D,), [x0, noise], u[k], t[k])
    v.eq('other particles', pa.part[:-1], x1[:-1])
    xn = pa.part
    if kind == 'CSIRAS':
        lw = (v.rowuf('g', N, (), [xn], y[k + 1], t[k + 1]) + v.rowuf('lp', N, (), [x0, xn], u[k], t[k])
              - v.rowuf('lq', N, (), [x0, xn], u[k], y[k + 1], t[k]))
    elif kind == 'CPFYAS':
        lw = v.rowuf('lp', N, (), [x0, xn], u[k], t[k])
    elif missing:
        lw = np.zeros(N)
    else:
        lw = v.rowuf('g', N, (), [xn], y[k + 1], t[k + 1])
    a = pa.w - np.max(pa.w)
    v.eq('normalised weights', a, lw - np.max(lw))
    return (pa, lw, N)

def ck_cpf(v):
    (pa, lw, N) = body(v, 'CPF', False)
    v.eq('log-weights plus offset', pa.w + pa.w_offset, lw - np.log(N))
    v.eq('largest stored log-weight', np.max(pa.w), 0.0)
def ck_cpf_missing(v):
    body(v, 'CPF', True)
def ck_cpfas(v):
    (pa, lw, N) = body(v, 'CPFAS', False)
    v.eq('log-weights plus offset', pa.w + pa.w_offset, lw - np.log(N))
    v.eq('largest stored log-weight', np.max(pa.w), 0.0)
def ck_cpfas_missing(v):
    body(v, 'CPFAS', True)
def ck_csiras(v):
    (pa, lw, N) = body(v, 'CSIRAS', False)
    shifted(v, pa, lw)
def ck_cpfyas(v):
    (pa, lw, N) = body(v, 'CPFYAS', False)
    shifted(v, pa, lw)
def shifted(v, pa, lw):
    """the next step exponentiates the stored log-weights"""
    v.eq('log-weights plus offset', pa.w + pa.w_offset, lw)
    v.eq('largest stored log-weight', np.max(pa.w), 0.0)

def ck_initial(v):
    kind = v.choose('filter', ['CPF', 'CPFAS', 'CSIRAS', 'CPFYAS'])
    N = v.dim('N', 1, 6); D = v.dim('D', 1, 2)
    ref = S.reference(v, D, 1)
    f = make(v, kind, N, D, ref)
    x0 = f.model.create_initial_estimate(N)
    x = f.create_initial_estimate(N)
    v.eq('reference state is the last particle', x[-1], ref[0].pa.part[0])
    v.eq('number of particles', len(x), N)

def ck_initial_others(v):
    kind = v.choose('filter', ['CPF', 'CPFAS', 'CSIRAS', 'CPFYAS'])
    N = v.dim('N', 2, 6); D = v.dim('D', 1, 2)
    ref = S.reference(v, D, 1)
    f = make(v, kind, N, D, ref)
    x0 = v.arr('fixed', N, D)
    f.model.create_initial_estimate = lambda n: x0.copy()
    x = f.create_initial_estimate(N)
    v.eq('other particles come from the model', x[:-1], x0[:-1])

def ck_measure(v):
    """first measurement applied to the initial state"""
    kind = v.choose('filter', ['CPF', 'CPFAS', 'CSIRAS'])
    N = v.dim('N', 2, 6); D = v.dim('D', 1, 2)
    (traj, u, y, t) = S.history(v, N, D, 1)
    ref = S.reference(v, D, 1)
    f = make(v, kind, N, D, ref)
    pa = pf.ParticleApproximation(v.arr('x', N, D))
    x0 = pa.part.copy()
    r = f.measure(traj=[pf.TrajectoryStep(pa, np.arange(N))], ancestors=np.arange(N), pa=pa, uvec=u, yvec=y, tvec=t, cur_ind=0, inplace=True)
    v.same('updated in place', r, pa)
    v.eq('particles', pa.part, x0)
    v.eq('weights', S.softmax(pa.w), S.softmax(v.rowuf('g', N, (), [x0], y[0], t[0])))

def ck_cpfyas_measure(v):
    N = v.dim('N', 2, 6); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', [1, 2])
    (traj, u, y, t) = S.history(v, N, D, T)
    ref = S.reference(v, D, T)
    f = make(v, 'CPFYAS', N, D, ref)
    pa = f.measure(traj=traj, ancestors=np.arange(N), pa=None, uvec=u, yvec=y, tvec=t, cur_ind=T, inplace=False)
    v.eq('reference state is the last particle', pa.part[-1], ref[T].pa.part[0])
    v.eq('other particles', pa.part[:-1], v.rowuf('qy', N, (D,), [np.arange(N)], y[T], t[T])[:-1])
    v.eq('uniform weights', S.softmax(pa.w), np.ones(N) / N)

CONTRACTS = ['ck_cpf', 'ck_cpf_missing', 'ck_cpfas', 'ck_cpfas_missing', 'ck_csiras', 'ck_cpfyas', 'ck_initial', 'ck_initial_others', 'ck_measure', 'ck_cpfyas_measure']
