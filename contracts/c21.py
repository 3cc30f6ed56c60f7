"""P21: the objective of the maximisation step, its gradient, and expectation maximisation."""
import numpy as np
import scipy.optimize
import pyparticleest.simulator as ps
import pyparticleest.paramest.interfaces as pi
import pyparticleest.paramest.paramest as pe
import pyparticleest.paramest.gradienttest as pg
import contracts.stubs as S
from contracts.loops import the

TRUSTED = ['scipy.optimize.minimize: its result is arbitrary; the callers are checked for what they hand to it and what they do with the result.']
ASSUMPTIONS = ['Machine arithmetic is treated as real arithmetic.',
               'Objective: proved for any number of time steps when no measurement is missing, and unrolled for 1, 2 and 3 steps with any one of them missing; numbers of trajectories, states and parameters are arbitrary.',
               'Expectation maximisation: proved by induction over the iterations (any number) and, independently, unrolled for up to 3 iterations.']
CONTRACTS = ['ck_value', 'ck_value_grad', 'ck_fulltraj', 'ck_any_length', 'ck_gradient_test', 'ck_bounds', 'ck_em', 'ck_em_induction']

class Terms(object):
    """arbitrary densities depending on the parameters; per-particle values or their sum"""
    def set_params(self, params):
        self.params = np.copy(params)
        self.log.append(self.params)
    def _out(self, x):
        return np.sum(x) if self.summed else x
    def eval_logp_x0(self, particles, t):
        return self._out(self.v.rowuf('p0', len(particles), (), [particles], self.params, t))
    def logp_xnext(self, particles, next_part, u, t):
        return self._out(self.v.rowuf('px', len(particles), (), [particles, next_part], self.params, u, t))
    def measure(self, particles, y, t):
        return self._out(self.v.rowuf('py', len(particles), (), [particles], self.params, y, t))
    def eval_logp_x0_val_grad(self, particles, t):
        return (self.eval_logp_x0(particles, t), self._grad(self.v.uf('g0', (self.P,), particles, self.params, t)))
    def eval_logp_xnext_val_grad(self, particles, particles_next, u, t):
        return (self.logp_xnext(particles, particles_next, u, t), self._grad(self.v.uf('gx', (self.P,), particles, particles_next, self.params, u, t)))
    def eval_logp_y_val_grad(self, particles, y, t):
        return (self.measure(particles, y, t), self._grad(self.v.uf('gy', (self.P,), particles, self.params, y, t)))
    def _grad(self, g):
        return g.reshape((-1, 1)) if self.column else g

class Numeric(Terms, pi.ParamEstBaseNumeric, pi.ParamEstInterface): pass

class Analytic(Terms, pi.ParamEstBaseNumericGrad, pi.ParamEstInterface_GradientSearch): pass

def make(v, cls, P):
    m = cls()
    m.v = v; m.P = P; m.log = []
    m.summed = v.choose('densities', ['per particle', 'summed']) == 'summed'
    m.column = False
    m.params = v.arr('params', P)
    return m

def straj(v, steps=(1, 2, 3), anywhere=True):
    """arbitrary smoothed trajectories with the inputs, measurements and time stamps of their steps"""
    T = v.choose('steps', S.longer(v, list(steps), [8]))
    M = v.dim('M', 1, 4); D = v.dim('D', 1, 2); N = v.dim('N', 1, 3)
    (traj, u, y, t) = S.history(v, N, D, T)
    k = v.choose('measurement missing at step', ['none'] + ([j for j in range(T)] if anywhere else [T - 1]))
    if k != 'none':
        y[k] = None
    pt = S.recorded(v, S.SmModel(v, D), traj, u, y, t)
    S.abstract_sample(v)
    st = pt.perform_smoothing(1, 'ancestor')
    st.traj = np.array([S.step(v, 's%d' % j, M, D) for j in range(T)], dtype=object)
    st.M = M
    return (st, T, M, D, u, y, t)

def pieces(v, m, st, T, u, y, t, th):
    """the three terms at parameters th, and their gradients"""
    x = [s.pa.part for s in st.traj]
    M = len(x[0])
    l0 = np.sum(v.rowuf('p0', M, (), [x[0]], th, t[0]))
    g0 = v.uf('g0', (m.P,), x[0], th, t[0])
    lx = 0.0; gx = np.zeros(m.P)
    for k in range(T - 1):
        lx = lx + np.sum(v.rowuf('px', M, (), [x[k], x[k + 1]], th, u[k], t[k]))
        gx = gx + v.uf('gx', (m.P,), x[k], x[k + 1], th, u[k], t[k])
    ly = 0.0; gy = np.zeros(m.P)
    for k in range(T):
        if y[k] is not None:
            ly = ly + np.sum(v.rowuf('py', M, (), [x[k]], th, y[k], t[k]))
            gy = gy + v.uf('gy', (m.P,), x[k], th, y[k], t[k])
    return (l0 / M, lx / M, ly / M, g0 / M, gx / M, gy / M)

def expected(v, m, st, T, u, y, t, th):
    """minus the average over the trajectories of the complete-data log-likelihood, and its gradient"""
    (l0, lx, ly, g0, gx, gy) = pieces(v, m, st, T, u, y, t, th)
    return (-(l0 + lx + ly), -(g0 + gx + gy))

class Result(object):
    def __init__(self, x): self.x = x

def search(v, m, st, T, u, y, t):
    """run the maximisation with an arbitrary optimiser that evaluates its objective at arbitrary parameters"""
    out = []
    best = v.arr('best', m.P)
    (th1, th2) = (v.arr('th1', m.P), v.arr('th2', m.P))
    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, options=None, **kw):
        a = fun(th1)
        b = fun(th2)
        out.append((x0, jac, bounds, (a, b)))
        return Result(best)
    v.patch(scipy.optimize, 'minimize', minimize)
    s = v.snap((st.traj, st.u, st.y, st.t))
    p0 = v.snap(m.params)
    r = m.maximize(st)
    v.unchanged('trajectories', (st.traj, st.u, st.y, st.t), s)
    v.eq('one search', len(out), 1)
    v.eq('the search starts at the current parameters', out[0][0], p0)
    v.eq('result is the maximiser', r, best)
    return (th1, th2, out[0][1], out[0][2], out[0][3])

def ck_value(v):
    (st, T, M, D, u, y, t) = straj(v)
    m = make(v, Numeric, v.dim('P', 1, 3))
    (th1, th2, jac, bounds, vals) = search(v, m, st, T, u, y, t)
    v.eq('derivatives are found numerically', bool(jac), False)
    v.check('no bounds', bounds is None)
    v.eq('objective', vals[0], expected(v, m, st, T, u, y, t, th1)[0])
    v.eq('objective at other parameters', vals[1], expected(v, m, st, T, u, y, t, th2)[0])
    v.eq('evaluated at the given parameters', (m.log[0], m.log[1]), (th1, th2))

def ck_value_grad(v):
    (st, T, M, D, u, y, t) = straj(v)
    m = make(v, Analytic, v.dim('P', 1, 3))
    m.column = v.choose('gradient', ['vector', 'column']) == 'column'
    (th1, th2, jac, bounds, vals) = search(v, m, st, T, u, y, t)
    v.eq('derivatives are supplied', bool(jac), True)
    v.check('no bounds', bounds is None)
    for (label, th, r) in [('', th1, vals[0]), (' at other parameters', th2, vals[1])]:
        (val, grad) = expected(v, m, st, T, u, y, t, th)
        v.eq('objective' + label, r[0], val)
        v.eq('gradient' + label, r[1], grad)

def ck_fulltraj(v):
    """the terms over the whole trajectory, without and with gradient"""
    (st, T, M, D, u, y, t) = straj(v)
    m = make(v, Analytic, v.dim('P', 1, 3))
    th = m.params
    (l0, lx, ly, g0, gx, gy) = pieces(v, m, st, T, u, y, t, th)
    v.eq('transition term', m.eval_logp_xnext_fulltraj(st, st.u, st.t), lx)
    v.eq('measurement term', m.eval_logp_y_fulltraj(st, st.y, st.t), ly)
    (a, b) = m.eval_logp_xnext_val_grad_fulltraj(st, st.u, st.t)
    v.eq('transition term with gradient', a, lx)
    v.eq('gradient of the transition term', b, gx)
    (a, b) = m.eval_logp_y_val_grad_fulltraj(st, st.y, st.t)
    v.eq('measurement term with gradient', a, ly)
    v.eq('gradient of the measurement term', b, gy)

def ck_any_length(v):
    """any number of time steps: objective and gradient are the sums over the steps, each with its own data"""
    T = v.dim('T', 1, 6)
    M = v.dim('M', 1, 4); D = v.dim('D', 1, 2)
    (u, y, t) = (v.arr('u', T, 1), v.arr('y', T, 1), v.arr('t', T))
    S.abstract_sample(v)
    st = S.smoothed_object(v, D)
    (X, W, st.traj) = S.steps(v, 's', T, M, D, True)
    st.M = M
    (st.u, st.y, st.t) = (u, y, t)
    cls = Numeric if v.choose('gradient', ['numeric', 'analytic']) == 'numeric' else Analytic
    m = make(v, cls, v.dim('P', 1, 3))
    (th, th2, jac, bounds, vals) = search(v, m, st, T, u, y, t)
    (lx, ly) = (0.0, 0.0); gx = np.zeros(m.P); gy = np.zeros(m.P)
    for k in range(T - 1):
        lx += np.sum(v.rowuf('px', M, (), [X[k], X[k + 1]], th, u[k], t[k]))
    for k in range(T):
        ly += np.sum(v.rowuf('py', M, (), [X[k]], th, y[k], t[k]))
    val = -(np.sum(v.rowuf('p0', M, (), [X[0]], th, t[0])) + lx + ly) / M
    if cls is Numeric:
        v.eq('objective', vals[0], val)
        return
    for k in range(T - 1):
        gx += v.uf('gx', (m.P,), X[k], X[k + 1], th, u[k], t[k])
    for k in range(T):
        gy += v.uf('gy', (m.P,), X[k], th, y[k], t[k])
    v.eq('objective', vals[0][0], val)
    v.eq('gradient', vals[0][1], -(v.uf('g0', (m.P,), X[0], th, t[0]) + gx + gy) / M)

def ck_bounds(v):
    """bounds given to the constructor or set later are those of the search"""
    B = [(0.0, 1.0)]; B2 = [(-1.0, 2.0)]
    cls = Numeric if v.choose('gradient', ['numeric', 'analytic']) == 'numeric' else Analytic
    got = []
    p = v.arr('best', 1)
    def minimize(fun, x0, args=(), method=None, jac=None, bounds=None, options=None, **kw):
        got.append((x0, bounds))
        return Result(p)
    v.patch(scipy.optimize, 'minimize', minimize)
    m = cls(param_bounds=B)
    m.v = v; m.P = 1; m.log = []; m.summed = False; m.column = False
    col = v.choose('stored parameters', ['vector', 'column'])
    q = v.arr('params', 1)
    m.params = q if col == 'vector' else q.reshape((-1, 1))
    v.eq('result', m.maximize(None), p)
    v.same('bounds of the constructor', got[0][1], B)
    v.eq('start', got[0][0], q)
    m.set_param_bounds(B2)
    m.maximize(None)
    v.same('bounds set later', got[1][1], B2)

def ck_gradient_test(v):
    """the curves of the gradient test are the three terms of the objective and their derivatives at the given values of one parameter"""
    (st, T, M, D, u, y, t) = straj(v, (1, 2), False)
    P = v.dim('P', 1, 3)
    m = make(v, Analytic, P)
    analytic = v.choose('derivatives', [True, False])
    e = pg.GradientTest(m, u[:T], y[:T])
    e.set_params(v.arr('start', P))
    sims = []
    def simulate(self, num_part, num_traj, filter='PF', filter_options=None, smoother='full', smoother_options=None, res=0.67, meas_first=False):
        self.straj = st
        sims.append((num_part, num_traj, np.copy(self.model.params)))
        return 0
    v.patch(ps.Simulator, 'simulate', simulate)
    i = v.index('which', P)
    vals = [v.num('value%d' % k) for k in range(2)]
    start = np.copy(e.params)
    s = v.snap((st.traj, st.u, st.y, st.t))
    e.test(i, vals, 7, 3, analytic)
    v.unchanged('trajectories', (st.traj, st.u, st.y, st.t), s)
    v.eq('one simulation', len(sims), 1)
    v.eq('numbers of particles and trajectories, parameters', sims[0], (7, 3, start))
    for k in range(len(vals)):
        th = np.copy(start)
        th[i] = vals[k]
        (l0, lx, ly, g0, gx, gy) = pieces(v, m, st, T, u, y, t, th)
        for (label, p, l, g) in [('initial state', e.plot_x0, l0, g0), ('transition', e.plot_xn, lx, gx), ('measurement', e.plot_y, ly, gy)]:
            v.eq(label + ': parameter value', p.params[k], vals[k])
            v.eq(label + ': value', p.vals[k], l)
            if analytic: v.eq(label + ': derivative', p.diff[k], g[i])
            else: v.check(label + ': no derivative', p.diff is None)

# ---------------------------------------------------------------- expectation maximisation
class EMModel(object):
    def __init__(self, v, P): self.v = v; self.P = P; self.log = []; self.params = None; self.next = None
    def set_params(self, params): self.params = np.copy(params)
    def maximize(self, straj):
        r = self.next(self)
        self.log.append((straj, r))
        return r

def abstract_simulate(v, log):
    """Simulator.simulate (checked elsewhere) only sees the model as it is and leaves a fresh smoothed trajectory"""
    def simulate(self, num_part, num_traj, filter='PF', filter_options=None, smoother='full', smoother_options=None, res=0.67, meas_first=False):
        self.straj = S.Box('smoothed')
        log.append((np.copy(self.model.params), np.copy(self.params), num_part, num_traj, filter, smoother, smoother_options, meas_first, self.straj))
        return 0
    v.patch(ps.Simulator, 'simulate', simulate)

def num_at(x, k):
    """number for iteration k: the next of the sequence, then the last"""
    if isinstance(x, int): return x
    return x[k] if k < len(x) else x[-1]

def ck_em(v):
    P = v.dim('P', 1, 3)
    n = v.choose('iterations', [1, 2, 3])
    p0 = v.arr('p0', P)
    best = [v.arr('best%d' % k, P) for k in range(n)]
    m = EMModel(v, P)
    m.next = lambda s: best[len(s.log)]
    log = []; calls = []; sims = []
    abstract_simulate(v, log)
    e = pe.ParamEstimation(m, [None, None], [1.0, 2.0])
    npart = v.choose('particles', [5, [3], [3, 7]])
    ntraj = v.choose('trajectories', [2, [1, 4]])
    opts = {'R': 3}
    def callback(params, Q, cur_iter): calls.append((np.copy(params), cur_iter))
    def callback_sim(est): sims.append((est, est.straj))
    if not v.symbolic and v.choose('used before', [False, True]):
        e.maximize(v.arr('earlier guess', P), 3, 4, max_iter=n)
        for l in (log, m.log): l.clear()
    s = v.snap(p0)
    (p, q) = e.maximize(p0, npart, ntraj, max_iter=n, filter='apf', smoother='ancestor', smoother_options=opts,
                        meas_first=True, callback=callback, callback_sim=callback_sim)
    v.unchanged('initial guess', p0, s)
    v.eq('number of iterations', [len(log), len(m.log), len(calls), len(sims)], [n, n, n, n])
    for k in range(n):
        cur = p0 if k == 0 else best[k - 1]
        v.eq('parameters of the model when simulating', log[k][0], cur)
        v.eq('parameters recorded by the estimator', log[k][1], cur)
        v.eq('number of particles', log[k][2], num_at(npart, k))
        v.eq('number of trajectories', log[k][3], num_at(ntraj, k))
        v.eq('filter', log[k][4], 'apf')
        v.eq('smoother', log[k][5], 'ancestor')
        v.same('smoother options', log[k][6], opts)
        v.eq('first measurement', log[k][7], True)
        v.same('maximises over the trajectories just smoothed', m.log[k][0], log[k][8])
        v.eq('callback gets the maximiser', calls[k][0], best[k])
        v.eq('callback gets the iteration', calls[k][1], k)
        v.same('simulation callback runs after smoothing', sims[k][1], log[k][8])
    v.eq('returns the last maximiser', p, best[n - 1])

class EMLoop(object):
    """loop contract of ParamEstimation.maximize: the next iteration simulates with the vector the loop carries"""
    calls = 'simulate'
    def __init__(self, v, P, p0, n, m, e, log):
        self.v = v; self.P = P; self.p0 = p0; self.n = n; self.m = m; self.e = e; self.log = log; self.arb = None
    def entry(self, loc):
        self.nvec = the(self.v, loc, 'vector')
        if '#n' not in loc: self.v.unsupported('loop contract: not a counted loop')
        self.v.eq('starts from the initial guess', loc[self.nvec], self.p0)
        self.v.eq('number of iterations', loc['#n'], self.n)
    def havoc(self, loc):
        self.arb = self.v.arr('p_any', self.P)
        return {self.nvec: self.arb}
    def modifies(self, loc): return [self.m, self.e, self.log, self.m.log]
    def back(self, loc):
        v = self.v
        v.eq('one simulation, one maximisation', [len(self.log), len(self.m.log)], [1, 1])
        v.eq('simulates with the previous maximiser', self.log[0][0], self.arb)
        v.eq('recorded parameters', self.log[0][1], self.arb)
        v.same('maximises over the trajectories just smoothed', self.m.log[0][0], self.log[0][8])
        v.eq('the next iteration uses the new maximiser', loc[self.nvec], self.m.log[0][1])

def ck_em_induction(v):
    """any number of iterations"""
    P = v.dim('P', 1, 3)
    n = v.dim('iterations', 1, 6)
    p0 = v.arr('p0', P)
    m = EMModel(v, P)
    best = [v.arr('best0', P)] if v.symbolic else [v.arr('best%d' % k, P) for k in range(n)]
    m.next = lambda s: best[len(s.log)]
    log = []
    abstract_simulate(v, log)
    e = pe.ParamEstimation(m, [None, None], [1.0, 2.0])
    if not v.symbolic and v.choose('used before', [False, True]): e.set_params(v.arr('earlier parameters', P))
    loop = EMLoop(v, P, p0, n, m, e, log)
    v.cut('pyparticleest.paramest.paramest.ParamEstimation.maximize', loop)
    (p, q) = e.maximize(p0, 5, 2, max_iter=n)
    v.eq('returns the last maximiser', p, loop.arb if v.symbolic else best[n - 1])
    if not v.symbolic:
        v.eq('number of iterations', [len(log), len(m.log)], [n, n])
        for k in range(n):
            v.eq('simulates with the previous maximiser', log[k][0], p0 if k == 0 else best[k - 1])
