"""P24: reported estimates are the normalised weighted particles."""
import numpy as np
import pyparticleest.simulator as ps
import pyparticleest.filter as pf
import contracts.stubs as S

TRUSTED = []
ASSUMPTIONS = ['Machine arithmetic is treated as real arithmetic; recorded log-weights are finite.',
               'Estimates and averages: proved for any number of recorded steps; their frame conditions and second readings are unrolled for 1, 2 and 3 steps. Particle and state dimensions are arbitrary.']
CONTRACTS = ['ck_filtered', 'ck_filtered_mean', 'ck_filtered_any', 'ck_smoothed_any', 'ck_smoothed', 'ck_smoothed_mean', 'ck_end_to_end', 'ck_smoothed_end_to_end']

def setup(v):
    N = v.dim('N', 1, 5); D = v.dim('D', 1, 3)
    T = v.choose('steps recorded', S.longer(v, [1, 2, 3], [9]))
    (traj, u, y, t) = S.history(v, N, D, T)
    m = S.SmModel(v, D)
    s = ps.Simulator(m, u[:T], y[:T])
    s.pt = S.recorded(v, m, traj, u, y, t)
    return (N, D, T, s)

def weighted(v, label, est, w, traj, N):
    v.eq(label + ': number of steps', [len(est), len(w)], [len(traj), len(traj)])
    for k in range(len(traj)):
        e = np.exp(traj[k].pa.w)
        v.eq(label + ': particles', est[k], traj[k].pa.part)
        v.eq(label + ': weights proportional to the importance weights', w[k], e / np.sum(e))
        v.eq(label + ': weights sum to one', np.sum(w[k]), 1.0)
        v.le(label + ': weights are not negative', np.zeros(N), w[k])

def ck_filtered(v):
    (N, D, T, s) = setup(v)
    old = v.snap((s.pt.traj, s.pt.uvec, s.pt.yvec, s.pt.tvec))
    (est, w) = s.get_filtered_estimates()
    v.unchanged('recorded', (s.pt.traj, s.pt.uvec, s.pt.yvec, s.pt.tvec), old)
    weighted(v, 'estimates', est, w, old[0], N)
    (est2, w2) = s.get_filtered_estimates()
    weighted(v, 'second reading', est2, w2, old[0], N)

def ck_filtered_mean(v):
    (N, D, T, s) = setup(v)
    old = v.snap((s.pt.traj, s.pt.uvec, s.pt.yvec, s.pt.tvec))
    x = s.get_filtered_mean()
    v.unchanged('recorded', (s.pt.traj, s.pt.uvec, s.pt.yvec, s.pt.tvec), old)
    v.eq('number of steps', len(x), T)
    for k in range(T):
        e = np.exp(old[0][k].pa.w)
        v.eq('weighted average', x[k], np.dot(e / np.sum(e), old[0][k].pa.part))

def any_length(v):
    N = v.dim('N', 1, 5); D = v.dim('D', 1, 3)
    T = v.dim('T', 1, 5)
    m = S.SmModel(v, D)
    s = ps.Simulator(m, v.arr('u', T, 1), v.arr('y', T, 1))
    s.pt = pf.ParticleTrajectory(m, N)
    (X, W, s.pt.traj) = S.steps(v, 'f', T, N, D)
    return (T, N, D, s, X, W)

def ck_filtered_any(v):
    """any number of recorded steps"""
    (T, N, D, s, X, W) = any_length(v)
    (est, w) = s.get_filtered_estimates()
    x = s.get_filtered_mean()
    v.eq('shapes', (est.shape, w.shape, x.shape), ((T, N, D), (T, N), (T, D)))
    k = v.index('k', T)
    e = np.exp(W[k])
    v.eq('particles', est[k], X[k])
    v.eq('weights proportional to the importance weights', w[k], e / np.sum(e))
    v.eq('weights sum to one', np.sum(w[k]), 1.0)
    v.eq('weighted average', x[k], np.dot(e / np.sum(e), X[k]))

def ck_smoothed_any(v):
    """any number of smoothed steps"""
    (T, N, D, s, X, W) = any_length(v)
    M = v.dim('M', 1, 4)
    S.abstract_sample(v)
    (X2, W2, st) = S.steps(v, 's', T, M, D, True)
    s.straj = S.smoothed_object(v, D)
    s.straj.traj = st
    s.straj.M = M
    est = s.get_smoothed_estimates()
    x = s.get_smoothed_mean()
    v.eq('shapes', (est.shape, x.shape), ((T, M, D), (T, D)))
    k = v.index('k', T)
    v.eq('trajectories', est[k], X2[k])
    v.eq('average with equal weights', x[k], np.sum(X2[k], 0) / M)

def smoothed(v):
    (N, D, T, s) = setup(v)
    M = v.dim('M', 1, 4)
    s.straj = s.pt.perform_smoothing(1, 'ancestor')
    s.straj.traj = [S.step(v, 's%d' % k, M, D) for k in range(T)]
    s.straj.M = M
    return (M, D, T, s)

def ck_smoothed(v):
    (M, D, T, s) = smoothed(v)
    old = v.snap((s.pt.traj, s.straj.traj))
    est = s.get_smoothed_estimates()
    v.unchanged('recorded', (s.pt.traj, s.straj.traj), old)
    v.eq('number of steps', len(est), T)
    for k in range(T):
        v.eq('trajectories', est[k], old[1][k].pa.part)
    est2 = s.straj.get_smoothed_estimates()
    for k in range(T):
        v.eq('same from the trajectory object', est2[k], old[1][k].pa.part)

def ck_smoothed_mean(v):
    (M, D, T, s) = smoothed(v)
    old = v.snap((s.pt.traj, s.straj.traj))
    x = s.get_smoothed_mean()
    v.unchanged('recorded', (s.pt.traj, s.straj.traj), old)
    v.eq('number of steps', len(x), T)
    for k in range(T):
        v.eq('average with equal weights', x[k], np.sum(old[1][k].pa.part, 0) / M)

def simulate(v, smoother):
    N = v.dim('N', 1, 5); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3)
    T = 1 if v.symbolic else v.choose('measurements', [1, 2, 3, 6])
    m = S.FullModel(v, D)
    u = [v.arr('u%d' % k, 1) for k in range(T)]
    y = [v.arr('y%d' % k, 1) for k in range(T)]
    s = ps.Simulator(m, u, y)
    S.abstract_sample(v)
    s.simulate(N, M, 'PF', smoother=smoother, meas_first=v.choose('first measurement at the initial state', [False, True]))
    return (N, M, D, s)

def reread(v, N, M, s, smoother, read):
    """(when run) the estimates follow what is recorded at the time they are read: the caller overwrites its copy, the data set is run again,
    recording continues"""
    if v.symbolic: return
    read()[:] = 77.0
    for k in range(v.choose('runs again', [0, 1, 2])): s.simulate(N + k, M, 'PF', smoother=smoother, meas_first=v.choose('first again', [False, True]))
    read()
    if smoother is None:
        for k in range(v.choose('recorded afterwards', [0, 1, 2])): s.pt.forward(v.arr('u_after', 1), v.arr('y_after', 1))
    elif v.choose('smoothed again', [False, True]): s.straj = s.pt.perform_smoothing(M + 1, smoother)

def ck_end_to_end(v):
    """after running the filter the estimates are those it recorded"""
    (N, M, D, s) = simulate(v, None)
    (est, w) = s.get_filtered_estimates()
    weighted(v, 'estimates', est, w, s.pt.traj, N)
    reread(v, N, M, s, None, lambda: s.get_filtered_estimates()[0])
    reread(v, N, M, s, None, lambda: s.get_filtered_estimates()[1])
    if not v.symbolic:
        (est, w) = s.get_filtered_estimates()
        weighted(v, 'estimates read again', est, w, s.pt.traj, len(s.pt.traj[0].pa))
        for k in range(len(w)): v.eq('average read again', s.get_filtered_mean()[k], np.dot(w[k], s.pt.traj[k].pa.part))

def ck_smoothed_end_to_end(v):
    """after running the smoother every reported trajectory is equally weighted"""
    (N, M, D, s) = simulate(v, 'full')
    est = s.get_smoothed_estimates()
    v.eq('one row per step, one column per trajectory', est.shape, (len(s.pt.traj), M, D))
    for k in range(len(s.pt.traj)):
        v.eq('trajectories', est[k], s.straj.traj[k].pa.part)
        v.eq('average', s.get_smoothed_mean()[k], np.sum(est[k], 0) / M)
    reread(v, N, M, s, 'full', lambda: s.get_smoothed_estimates())
    if not v.symbolic:
        est = s.get_smoothed_estimates()
        for k in range(len(est)):
            v.eq('trajectories read again', est[k], s.straj.traj[k].pa.part)
            v.eq('average read again', s.get_smoothed_mean()[k], np.mean(s.straj.traj[k].pa.part, 0))
