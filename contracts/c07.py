"""P07: frame conditions - recorded history is never altered and never shared with new approximations."""
import numpy as np
import pyparticleest.filter as pf
import pyparticleest.smoother as sm
import contracts.stubs as S

def filt(v, kind, N, D, ref):
    m = S.PFModel(v, D)
    if kind == 'PF': return pf.ParticleFilter(m, 0.7)
    if kind == 'APF': return pf.AuxiliaryParticleFilter(m, 0.7)
    if kind == 'SIR': return pf.SIR(m, 0.7)
    if kind == 'PFY': return pf.FFPropY(m, N, 0.7)
    if kind == 'CPF': return pf.CPF(m, ref)
    if kind == 'CPFAS': return pf.CPFAS(m, ref)
    if kind == 'CSIRAS': return pf.CSIRAS(m, ref)
    return pf.CPFYAS(m, N, ref)

def forward(v, kinds):
    kind = v.choose('filter', kinds)
    N = v.dim('N', 2, 5); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', [1, 3])
    (traj, u, y, t) = S.history(v, N, D, T)
    ref = S.reference(v, D, T)
    f = filt(v, kind, N, D, ref)
    s = v.snap((traj, ref, u, y))
    (pa, resampled, anc) = f.forward(traj, y, u, t, T - 1)
    v.unchanged('recorded steps', traj, s[0])
    v.unchanged('reference trajectory', ref, s[1])
    v.unchanged('inputs', u, s[2])
    v.unchanged('measurements', y, s[3])
    v.disjoint('new approximation and recorded steps', pa, traj)
    v.disjoint('new approximation and reference trajectory', pa, ref)
    v.disjoint('ancestors and recorded steps', anc, traj)

def ck_forward_pf(v): forward(v, ['PF'])
def ck_forward_apf(v): forward(v, ['APF'])
def ck_forward_sir(v): forward(v, ['SIR'])
def ck_forward_pfy(v): forward(v, ['PFY'])
def ck_forward_cond(v): forward(v, ['CPF', 'CPFAS'])
def ck_forward_cond2(v): forward(v, ['CSIRAS', 'CPFYAS'])

def ck_initial(v):
    """initial particles of the conditional filters do not alias the reference"""
    kind = v.choose('filter', ['CPF', 'CPFAS', 'CSIRAS', 'CPFYAS'])
    N = v.dim('N', 2, 5); D = v.dim('D', 1, 2)
    ref = S.reference(v, D, 1)
    s = v.snap(ref)
    f = filt(v, kind, N, D, ref)
    x = f.create_initial_estimate(N)
    v.unchanged('reference trajectory', ref, s)
    v.disjoint('initial particles and reference trajectory', x, ref)

def ck_measure(v):
    """a measurement changes only the newest recorded step"""
    kind = v.choose('filter', ['pf', 'apf', 'sir'])
    N = v.dim('N', 2, 5); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', [1, 3])
    (traj, u, y, t) = S.history(v, N, D, T)
    pt = S.recorded(v, S.PFModel(v, D), traj, u, y, t)
    s = v.snap(traj)
    pt.measure(y[T])
    v.eq('number of steps', len(pt), T)
    v.unchanged('earlier steps', pt.traj[:T - 1], s[:T - 1])
    v.eq('particles of the newest step', pt.traj[-1].pa.part, s[-1].pa.part)
    v.eq('ancestors of the newest step', pt.traj[-1].ancestors, s[-1].ancestors)

def ck_append(v):
    """recording a new step leaves the others as they were"""
    N = v.dim('N', 2, 5); D = v.dim('D', 1, 2)
    T = v.choose('steps recorded', [1, 3])
    (traj, u, y, t) = S.history(v, N, D, T)
    pt = S.recorded(v, S.PFModel(v, D), traj, u, y, t)
    s = v.snap(traj)
    pt.forward(u[T], y[T])
    v.eq('number of steps', len(pt), T + 1)
    v.unchanged('earlier steps', pt.traj[:T], s)
    v.disjoint('new step and earlier steps', pt.traj[T], pt.traj[:T])

def smooth(v, method, opts):
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3)
    T = v.choose('steps recorded', [2, 3])
    (traj, u, y, t) = S.history(v, N, D, T)
    pt = S.recorded(v, S.SmModel(v, D), traj, u, y, t)
    S.abstract_sample(v)
    S.abstract_rejection(v)
    if method in ('mhips', 'mhips_reduced', 'mhbp'):
        S.abstract_mc_step(v, D)
    s = v.snap((pt.traj, pt.uvec, pt.yvec, pt.tvec))
    st = pt.perform_smoothing(M, method, opts)
    v.unchanged('recorded steps', pt.traj, s[0])
    v.unchanged('recorded inputs', pt.uvec, s[1])
    v.unchanged('recorded measurements', pt.yvec, s[2])
    v.unchanged('recorded time stamps', pt.tvec, s[3])
    v.eq('number of smoothed steps', len(st.traj), T)
    for k in range(T):
        v.disjoint('smoothed step and recorded steps', st.traj[k], pt.traj)

def ck_smooth_full(v): smooth(v, 'full', None)
def ck_smooth_ancestor(v): smooth(v, 'ancestor', None)
def ck_smooth_mcmc(v): smooth(v, 'mcmc', {'R': 1 if v.symbolic else 2})
def ck_smooth_rs(v): smooth(v, 'rs', {'R': 2})
def ck_smooth_rsas(v): smooth(v, 'rsas', None)
def ck_smooth_mhips(v): smooth(v, 'mhips', {'R': 1})
def ck_smooth_mhips_reduced(v): smooth(v, 'mhips_reduced', {'R': 1})
def ck_smooth_mhbp(v): smooth(v, 'mhbp', {'R': 1})

def ck_mc_step(v):
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3)
    T = v.choose('steps recorded', [2, 3])
    k = v.choose('step', ['first', 'middle', 'last'])
    k = {'first': 0, 'middle': 1, 'last': T - 1}[k]
    (traj, u, y, t) = S.history(v, N, D, T)
    ft = [S.step(v, 'f%d' % j, M, D) for j in range(T - 1 - k)]
    if len(ft) == 0: ft = None
    past = None if k == 0 else traj[:k]
    part = v.arr('cur', M, D)
    pp = None if k == 0 else v.idx('anc_prop', N, M)
    pc = None if k == 0 else v.idx('anc_curr', N, M)
    find = np.arange(M)
    s = v.snap((traj, ft, part, pp, pc, u, y))
    (x, acc) = sm.mc_step(S.SmModel(v, D), part, past, pp, pc, ft, find, u, y, t, k, v.choose('reduced', [False, True]) if ft is not None or k > 0 else False)
    v.unchanged('filter trajectory', traj, s[0])
    v.unchanged('smoothed trajectory', ft, s[1])
    v.unchanged('current state', part, s[2])
    v.unchanged('proposed ancestors', pp, s[3])
    v.unchanged('current ancestors', pc, s[4])
    v.disjoint('result and filter trajectory', x, traj)
    v.disjoint('result and current state', x, part)

CONTRACTS = ['ck_mc_step'] +  ['ck_forward_pf', 'ck_forward_apf', 'ck_forward_sir', 'ck_forward_pfy', 'ck_forward_cond', 'ck_forward_cond2', 'ck_initial', 'ck_measure',
             'ck_append', 'ck_smooth_full', 'ck_smooth_ancestor', 'ck_smooth_mcmc', 'ck_smooth_rs', 'ck_smooth_rsas', 'ck_smooth_mhips',
             'ck_smooth_mhips_reduced', 'ck_smooth_mhbp']
