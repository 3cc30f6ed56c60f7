"""P09: bookkeeping of recorded steps; running a data set applies everything exactly once and in order."""
import numpy as np
import pyparticleest.filter as pf
import pyparticleest.simulator as sim
import contracts.stubs as S
from contracts.loops import the

class StubFilter(object):
    """arbitrary filter: the next particles are an unknown function of exactly the data entries a filter may look at"""
    def __init__(self, v, N, D, x0):
        self.v = v
        self.N = N
        self.D = D
        self.x0 = x0

    def create_initial_estimate(self, N):
        return self.x0.copy()

    def forward(self, traj, yvec, uvec, tvec, cur_ind):
        prev = traj[cur_ind].pa.part
        x = self.v.rowuf('F', self.N, (self.D,), [prev], uvec[cur_ind], yvec[cur_ind + 1], tvec[cur_ind], tvec[cur_ind + 1], len(traj))
        a = self.v.rowuf('A', self.N, (), [prev], uvec[cur_ind])
        return (pf.ParticleApproximation(x), False, a)

    def measure(self, traj, ancestors, pa, uvec, yvec, tvec, cur_ind, inplace=True):
        if not inplace:
            return pf.ParticleApproximation(self.v.rowuf('P', self.N, (self.D,), [np.arange(self.N)], yvec[cur_ind], tvec[cur_ind]))
        pa.w = pa.w + self.v.rowuf('G', self.N, (), [pa.part], yvec[cur_ind], tvec[cur_ind])
        return pa

def make(v, N, D, pre, kind, x0):
    m = S.PFModel(v, D)
    m.create_initial_estimate = lambda n: x0.copy()
    if pre is None:
        pt = pf.ParticleTrajectory(m, N, filter=kind)
    else:
        pt = pf.ParticleTrajectory(m, N, T=pre, filter=kind)
    pt.pf = StubFilter(v, N, D, x0)
    return pt

def sequence(v, kind, first):
    """any number of recorded steps (unrolled up to 4), with or without preallocation (shorter, equal, longer)"""
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2)
    pre = v.choose('preallocated', S.longer(v, [None, 1, 2, 3, 6], [8]))
    n = v.choose('forward steps', S.longer(v, [0, 1, 2, 3, 4] if first else [1, 2, 3, 4], [7, 12]))
    du = v.dim('du', 1, 2); dy = v.dim('dy', 1, 2)
    u = [v.arr('u%d' % k, du) for k in range(n)]
    y = [v.arr('y%d' % k, dy) for k in range(n + 1)]
    x = v.arr('x0', N, D)
    pt = make(v, N, D, pre, kind, x)
    w = -np.log(N) * np.ones(N)
    if first:
        pt.measure(y[0])
        v.eq('one step after the first measurement', len(pt), 1)
        if kind == 'pfy':
            x = v.rowuf('P', N, (D,), [np.arange(N)], y[0], 0)
        else:
            w = w + v.rowuf('G', N, (), [x], y[0], 0)
    for k in range(n):
        r = pt.forward(u[k], y[k + 1])
        v.eq('no resampling reported', r, False)
    v.eq('number of recorded steps', len(pt), n + 1)
    v.eq('initial particles', pt[0].pa.part, x)
    v.eq('initial weights', pt[0].pa.w, w)
    v.eq('initial ancestors', pt[0].ancestors, np.arange(N))
    for k in range(n):
        v.eq('ancestors of step %d' % (k + 1), pt[k + 1].ancestors, v.rowuf('A', N, (), [x], u[k]))
        x = v.rowuf('F', N, (D,), [x], u[k], y[k + 1], k, k + 1, k + 1)
        v.eq('step %d was produced from input %d and measurement %d' % (k + 1, k, k + 1), pt[k + 1].pa.part, x)
        v.eq('stored input %d' % k, pt.uvec[k], u[k])
        v.eq('stored measurement %d' % (k + 1), pt.yvec[k + 1], y[k + 1])
    for k in range(n + 1):
        v.eq('stored time stamp %d' % k, pt.tvec[k], k)
    if first:
        v.eq('stored first measurement', pt.yvec[0], y[0])

def ck_forward_sequence(v): sequence(v, v.choose('filter', ['pf', 'sir', 'apf']), False)
def ck_measure_first(v): sequence(v, 'pf', True)
def ck_measure_first_pfy(v): sequence(v, 'pfy', True)

def ck_remeasure(v):
    """a measurement of the newest step is stored with that step"""
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2)
    pre = v.choose('preallocated', [None, 1, 2, 4])
    n = v.choose('forward steps', S.longer(v, [1, 2], [5, 8]))
    dy = v.dim('dy', 1, 2)
    u = [v.arr('u%d' % k, 1) for k in range(n)]
    y = [v.arr('y%d' % k, dy) for k in range(n + 2)]
    pt = make(v, N, D, pre, 'pf', v.arr('x0', N, D))
    for k in range(n):
        pt.forward(u[k], y[k + 1])
    x = pt[n].pa.part.copy()
    w = pt[n].pa.w.copy()
    pt.measure(y[n + 1])
    v.eq('number of recorded steps', len(pt), n + 1)
    v.eq('weights of the newest step', pt[n].pa.w, w + v.rowuf('G', N, (), [x], y[n + 1], n))
    v.eq('stored measurement', pt.yvec[n], y[n + 1])
    v.eq('stored time stamp', pt.tvec[n], n)
    for k in range(n):
        v.eq('stored input %d' % k, pt.uvec[k], u[k])

FILTERS = {'PF': pf.ParticleFilter, 'apf': pf.AuxiliaryParticleFilter, 'sir': pf.SIR, 'pfy': pf.FFPropY, 'CPF': pf.CPF, 'cpfas': pf.CPFAS,
           'csiras': pf.CSIRAS, 'cpfyas': pf.CPFYAS}

def ck_filter_kinds(v):
    """the requested filter runs, with the given model, threshold and reference"""
    kind = v.choose('filter', ['PF', 'apf', 'sir', 'pfy', 'CPF', 'cpfas', 'csiras', 'cpfyas'])
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2)
    m = S.PFModel(v, D)
    ref = S.reference(v, D, 2)
    res = v.num('res')
    pt = pf.ParticleTrajectory(m, N, res, filter=kind, filter_options={'cond_traj': ref})
    v.check('filter class', isinstance(pt.pf, FILTERS[kind]))
    v.same('model', pt.pf.model, m)
    if kind in ('PF', 'apf', 'sir', 'pfy'):
        v.eq('threshold', pt.pf.res, res)
    else:
        for k in range(3):
            v.eq('reference state %d' % k, pt.pf.ctraj[k].pa.part, ref[k].pa.part)

def ck_unknown_filter(v):
    m = S.PFModel(v, 1)
    v.check('unknown filter is refused', v.raises(lambda: pf.ParticleTrajectory(m, 3, filter='nonsense'), 'ValueError'))

def dataset(v, n):
    du = v.dim('du', 1, 2); dy = v.dim('dy', 1, 2)
    u = [v.arr('u%d' % k, du) for k in range(n)]
    y = [v.arr('y%d' % k, dy) for k in range(n)]
    return (u, y)

def ck_simulate(v):
    """which input and measurement each step of a run uses, and the number of resamplings"""
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2)
    n = v.choose('length', S.longer(v, [1, 2, 3], [7]))
    first = v.choose('first measurement applies to the initial state', [False, True])
    inputs = v.choose('inputs', ['given', 'none'])
    (u, y) = dataset(v, n)
    off = 1 if first else 0
    flags = [v.choose('resampled at step %d' % k, [False, True]) for k in range(n - off)]
    x = v.arr('x0', N, D)
    stub = StubFilter(v, N, D, x)
    def forward(self, traj, yvec, uvec, tvec, cur_ind):
        (pa, r, a) = stub.forward(traj, yvec, uvec, tvec, cur_ind)
        return (pa, flags[cur_ind], a)
    v.patch(pf.ParticleFilter, 'forward', forward)
    v.patch(pf.ParticleFilter, 'measure', lambda self, traj, ancestors, pa, uvec, yvec, tvec, cur_ind, inplace=True: stub.measure(traj, ancestors, pa, uvec, yvec, tvec, cur_ind, inplace))
    m = S.PFModel(v, D)
    m.create_initial_estimate = lambda n: stub.x0.copy()
    s = sim.Simulator(m, u if inputs == 'given' else None, y)
    if v.choose('run before', [False, True] if n <= 2 or not v.symbolic else [False]):
        s.simulate(N, 0, filter='PF', smoother=None, meas_first=first)
        if first: 
            v.eq('length of the first run', len(s.pt), n)
    r = s.simulate(N, 0, filter='PF', smoother=None, meas_first=first)
    v.eq('number of resamplings', r, sum([1 if q else 0 for q in flags]))
    v.eq('number of steps', len(s.pt), n + 1 - off)
    w = -np.log(N) * np.ones(N)
    if first:
        w = w + v.rowuf('G', N, (), [x], y[0], 0)
    v.eq('initial weights', s.pt[0].pa.w, w)
    for k in range(n - off):
        uk = u[k] if inputs == 'given' else None
        x = v.rowuf('F', N, (D,), [x], uk, y[k + off], k, k + 1, k + 1)
        v.eq('step %d' % (k + 1), s.pt[k + 1].pa.part, x)

class Smoothed(object):
    def __init__(self, traj): self.traj = traj; self.M = 3

def ck_simulate_smoothing(v):
    """smoothing is run on the filtered trajectory exactly when requested, with the given method, count and options"""
    N = v.dim('N', 1, 3)
    (u, y) = dataset(v, 2)
    M = v.choose('trajectories', [0, 3])
    method = v.choose('smoother', [None, 'full', 'mhbp'])
    opts = {'R': 7}
    log = []; results = [Smoothed([pf.TrajectoryStep(pf.ParticleApproximation(v.arr('x%d' % k, 3, 1)))]) for k in range(2)]
    def smoothing(self, M, method='full', smoother_options=None):
        log.append((self, M, method, smoother_options))
        return results[len(log) - 1]
    v.patch(pf.ParticleTrajectory, 'perform_smoothing', smoothing)
    s = sim.Simulator(S.PFModel(v, 1), u, y)
    if v.choose('run before', [False, True]):
        s.simulate(N, 3, filter='PF', smoother='full', smoother_options=opts, res=0)
        v.eq('smoothed', len(log), 1)
        v.same('result of the first run', s.straj, results[0])
        log.pop()
        results[0] = results[1]
    s.simulate(N, M, filter='PF', smoother=method, smoother_options=opts, res=0)
    if M == 0 or method is None:
        v.eq('not smoothed', len(log), 0)
    else:
        v.eq('smoothed once', len(log), 1)
        v.same('filtered trajectory', log[0][0], s.pt)
        v.eq('number of trajectories', log[0][1], M)
        v.eq('method', log[0][2], method)
        v.same('options', log[0][3], opts)
        v.same('result kept', s.straj, results[0])

def ck_set_params(v):
    n = v.dim('n', 1, 3)
    p = v.arr('params', n)
    log = []
    m = S.PFModel(v, 1)
    m.set_params = lambda q: log.append(q)
    s = sim.Simulator(m, None, [])
    s.set_params(p)
    v.eq('model receives the parameters once', len(log), 1)
    v.eq('parameters', log[0], p)
    v.eq('stored parameters', s.params, p)

# ------------------------------------------------------------------ any number of steps
class Recorded(object):
    """steps recorded so far: any number n of them; the ones added are kept"""
    def __init__(self, v, n): self.v = v; self.n = n; self.added = []
    def __len__(self): return self.n + len(self.added)
    def append(self, x): self.added.append(x)
    def __getitem__(self, k):
        if isinstance(k, slice) or len(self.added) > 0: self.v.unsupported('steps recorded')
        if k < 0: k = k + self.n
        if k != self.n - 1: self.v.unsupported('an earlier step')
        return self.newest
    newest = None

class Watch(object):
    """arbitrary filter; keeps what it is given"""
    def __init__(self, v, N, D): self.v = v; self.N = N; self.D = D; self.log = []
    def forward(self, traj, yvec, uvec, tvec, cur_ind):
        r = (pf.ParticleApproximation(self.v.fresh(self.N, self.D)), 'resampled', self.v.fresh_idx(self.N, self.N))
        self.log.append((traj, len(traj), yvec, uvec, tvec, cur_ind, r))
        return r
    def measure(self, traj, ancestors, pa, uvec, yvec, tvec, cur_ind, inplace=True):
        self.log.append((traj, ancestors, pa, uvec, yvec, tvec, cur_ind, inplace))
        return pa

def ck_step_any(v):
    """recording one more step, after any number of steps: the representation invariant is kept, the new entries are stored at the new
    step, the others stay, and the filter is given the entries of this step"""
    op = v.choose('operation', ['forward', 'measure'])
    if not v.symbolic: return sequence(v, 'pf', op == 'measure')
    N = v.dim('N'); D = v.dim('D')
    n = v.dim('steps recorded', 1, 9)           # steps 0 .. n - 1
    T = v.dim('T', 1, 12); Tu = v.dim('Tu', 1, 12)
    v.assume(n <= T); v.assume(T - 1 <= Tu); v.assume(Tu <= T)
    pt = pf.ParticleTrajectory(S.PFModel(v, D), N)
    pt.pf = Watch(v, N, D)
    (pt.uvec, pt.yvec, pt.tvec) = (v.arr('u', Tu), v.arr('y', T), v.arr('t', T))
    (u0, y0, t0) = (pt.uvec.copy(), pt.yvec.copy(), pt.tvec.copy())
    pt.T = T; pt.ind = n - 1
    pt.traj = Recorded(v, n)
    step = pf.TrajectoryStep(pf.ParticleApproximation(v.arr('x', N, D), v.arr('w', N)), ancestors=v.idx('anc', N, N))
    pt.traj.newest = step
    s = v.snap(step)
    u = v.num('new u'); y = v.num('new y')
    if op == 'forward':
        r = pt.forward(u, y)
        v.eq('filter called once', len(pt.pf.log), 1)
        (tr, ln, yv, uv, tv, ix, res) = pt.pf.log[0]
        v.eq('steps known to the filter', ln, n)
        v.eq('step filtered from', ix, n - 1)
        v.eq('resampling reported', r, 'resampled')
        v.eq('one step added', len(pt.traj.added), 1)
        v.eq('particles', pt.traj.added[0].pa.part, res[0].part)
        v.eq('ancestors', pt.traj.added[0].ancestors, res[2])
        v.eq('input', uv[n - 1], u)
        v.eq('measurement', yv[n], y)
        v.eq('time stamp', tv[n], n)
        new = n
    else:
        pt.measure(y)
        v.eq('filter called once', len(pt.pf.log), 1)
        (tr, anc, pa, uv, yv, tv, ix, inplace) = pt.pf.log[0]
        v.same('approximation updated', pa, step.pa)
        v.eq('ancestors', anc, step.ancestors)
        v.eq('step updated', ix, n - 1)
        v.check('updated in place', inplace)
        v.eq('no step added', len(pt.traj.added), 0)
        v.eq('measurement', yv[n - 1], y)
        v.eq('time stamp', tv[n - 1], n - 1)
        new = n - 1
    v.same('trajectory', tr, pt.traj)
    for (a, b) in [(uv, pt.uvec), (yv, pt.yvec), (tv, pt.tvec)]: v.same('recorded data', a, b)
    k = v.index('earlier', n)
    if k < new: 
        v.eq('earlier measurement', pt.yvec[k], y0[k])
        v.eq('earlier time stamp', pt.tvec[k], t0[k])
    if k < n - 1:
        v.eq('earlier input', pt.uvec[k], u0[k])
    # the representation invariant; code that keeps its records in another way is left to the unrolled contracts
    if pt.ind != new or pt.ind + 1 > pt.T or len(pt.yvec) != pt.T or len(pt.tvec) != pt.T or pt.T - 1 > len(pt.uvec) or len(pt.uvec) > pt.T:
        v.unsupported('representation invariant')
    v.unchanged('earlier step', step, s)

class DataLoop(object):
    """the loop over the data set: every step is run once, with its own input and measurement; resamplings are counted"""
    calls = 'forward'
    def __init__(self, v, u, y, off, flag):
        self.v = v; self.u = u; self.y = y; self.off = off; self.flag = flag; self.log = []; self.first = []; self.count = None
    def forward(self, pt, u, y):
        self.log.append((pt, u, y))
        return self.flag
    def measure(self, pt, y): self.first.append((pt, y, len(self.log)))
    def entry(self, loc):
        v = self.v
        self.name = the(v, loc, 'number')
        v.eq('nothing counted yet', loc[self.name], 0)
        v.eq('nothing run yet', len(self.log), 0)
        v.eq('number of steps', loc['#n'], len(self.y) - self.off)
        self.check_first()
    def check_first(self):
        v = self.v
        v.eq('first measurement applied to the initial state', len(self.first), self.off)
        if self.off == 1: v.eq('first measurement', self.first[0][1], self.y[0])
    def havoc(self, loc):
        self.count = self.v.num('count')
        return {self.name: self.count}
    def modifies(self, loc): return [self.log, self.first]
    def back(self, loc):
        v = self.v; i = loc['#i']
        self.check_first()
        v.eq('one step run', len(self.log), 1)
        (pt, u, y) = self.log[0]
        if self.u is None: v.check('no input', u is None)
        else: v.eq('input', u, self.u[i])
        v.eq('measurement', y, self.y[i + self.off])
        v.eq('resamplings counted', loc[self.name], self.count + (1 if self.flag else 0))

def ck_simulate_any(v):
    """data sets of any length"""
    if not v.symbolic: return ck_simulate(v)
    N = v.dim('N'); n = v.dim('length', 1, 9)
    first = v.choose('first measurement applies to the initial state', [False, True])
    inputs = v.choose('inputs', ['given', 'none'])
    u = v.arr('u', n, v.dim('du', 1, 2)); y = v.arr('y', n, v.dim('dy', 1, 2))
    loop = DataLoop(v, u if inputs == 'given' else None, y, 1 if first else 0, v.choose('resampled', [False, True]))
    v.replace('pyparticleest.filter.ParticleTrajectory.forward', loop.forward)
    v.replace('pyparticleest.filter.ParticleTrajectory.measure', loop.measure)
    v.cut('pyparticleest.simulator.Simulator.simulate', loop)
    m = S.PFModel(v, 1)
    s = sim.Simulator(m, u if inputs == 'given' else None, y)
    r = s.simulate(N, 0, filter='PF', smoother=None, meas_first=first)
    if loop.count is None:
        v.unsupported('loop contract: no such loop')
    v.eq('resamplings reported', r, loop.count)

CONTRACTS = ['ck_forward_sequence', 'ck_measure_first', 'ck_measure_first_pfy', 'ck_remeasure', 'ck_filter_kinds', 'ck_unknown_filter',
             'ck_simulate', 'ck_simulate_smoothing', 'ck_set_params', 'ck_step_any', 'ck_simulate_any']
