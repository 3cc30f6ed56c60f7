"""P22: stochastic-approximation EM."""
import numpy as np
import pyparticleest.simulator as ps
import pyparticleest.paramest.paramest as pe
import contracts.stubs as S
from contracts.loops import the

TRUSTED = []
ASSUMPTIONS = ['Machine arithmetic is treated as real arithmetic.']
CONTRACTS = ['ck_saem', 'ck_saem_induction', 'ck_psaem', 'ck_psaem_induction', 'ck_psaem2', 'ck_psaem2_induction']

class Model(object):
    """the maximisation is arbitrary; what it is given is kept"""
    def __init__(self): self.log = []; self.params = None; self.best = None
    def set_params(self, params): self.params = np.copy(params)
    def maximize_weighted(self, straj, alltrajs, weights):
        r = self.best[len(self.log)]
        self.log.append((straj, np.copy(alltrajs), np.copy(weights), r))
        return r

class Smoothed(object):
    """smoothed trajectories of one iteration"""
    def __init__(self, x): self.x = x
    def get_smoothed_estimates(self): return self.x

def abstract_simulate(v, log, trajs):
    """Simulator.simulate (checked elsewhere) leaves arbitrary smoothed trajectories"""
    def simulate(self, num_part, num_traj, filter='PF', filter_options=None, smoother='full', smoother_options=None, res=0.67, meas_first=False):
        self.straj = Smoothed(trajs[len(log)])
        log.append((np.copy(self.model.params), num_part, num_traj, filter, filter_options, smoother, smoother_options, meas_first, self.straj))
        return 0
    v.patch(ps.Simulator, 'simulate', simulate)

def F(v, x):
    """arbitrary statistic of every trajectory in x (steps, trajectories, dimensions)"""
    y = np.transpose(x, (1, 0, 2))
    return v.rowuf('F', len(y), (), [y])

def stat(v, x, w): return np.sum(w * F(v, x))

def weights_ok(v, w):
    v.le('weights are not negative', np.zeros(len(w)), w)
    v.eq('weights sum to one', np.sum(w), 1.0)

def num_at(x, k):
    if isinstance(x, int): return x
    return x[k] if k < len(x) else x[-1]

def ck_saem(v):
    """unrolled"""
    T = v.dim('T', 1, 4); D = v.dim('D', 1, 2); P = v.dim('P', 1, 2)
    n = v.choose('iterations', [1, 2, 3])
    M = [v.dim('M%d' % k, 1, 3) for k in range(n)]
    trajs = [v.arr('x%d' % k, T, M[k], D) for k in range(n)]
    alphas = []
    for k in range(n):
        if v.choose('step size %d' % k, ['one', 'smaller'] if k > 0 or n == 1 else ['one']) == 'one':
            alphas.append(1)
        else:
            a = v.posnum('alpha%d' % k)
            if v.symbolic: v.assume(a < 1)
            alphas.append(a if v.symbolic else a / (1 + a))
    p0 = v.arr('p0', P)
    m = Model(); m.best = [v.arr('best%d' % k, P) for k in range(n)]
    log = []; calls = []
    abstract_simulate(v, log, trajs)
    e = pe.ParamEstimationSAEM(m, [None], [1.0])
    def callback(params, Q, cur_iter): calls.append((np.copy(params), cur_iter))
    if v.choose('used before', [False, True] if n == 1 or not v.symbolic else [False]):
        x0 = trajs[0]; trajs[0] = v.arr('x before', T, M[0], D)
        e.maximize(v.arr('p before', P), 4, M[0], max_iter=1, alpha_gen=lambda i: alphas[i])
        log.pop(); m.log.pop(); trajs[0] = x0
    s = v.snap((p0, trajs))
    (p, q) = e.maximize(p0, 4, M if n > 1 else M[0], max_iter=n, callback=callback, alpha_gen=lambda i: alphas[i])
    v.unchanged('initial guess and smoothed trajectories', (p0, trajs), s)
    v.eq('number of iterations', [len(log), len(m.log), len(calls)], [n, n, n])
    st = 0.0
    for k in range(n):
        v.eq('simulates with the previous maximiser', log[k][0], p0 if k == 0 else m.best[k - 1])
        v.eq('number of trajectories', log[k][2], M[k])
        (straj, x, w, r) = m.log[k]
        v.same('smoothed trajectories', straj, log[k][8])
        weights_ok(v, w)
        new = np.sum(F(v, trajs[k])) / M[k]
        st = new if k == 0 else (1.0 - alphas[k]) * st + alphas[k] * new
        v.eq('weighted statistic', stat(v, x, w), st)
        v.eq('callback', calls[k][0], m.best[k])
    v.eq('returns the last maximiser', p, m.best[n - 1])

class Loop(object):
    """loop contract of ParamEstimationSAEM.maximize: arbitrary retained trajectories whose weights are non-negative and sum to one"""
    calls = 'simulate'
    def __init__(self, v, dims, p0, n, m, e, log, alpha):
        self.v = v; (self.T, self.K, self.M, self.D, self.P) = dims
        self.p0 = p0; self.n = n; self.m = m; self.e = e; self.log = log; self.alpha = alpha
        self.arb = None; self.first = False; self.w = None; self.x = None
    def entry(self, loc):
        v = self.v
        self.nvec = the(v, loc, 'vector')
        if '#n' not in loc: v.unsupported('loop contract: not a counted loop')
        self.nw = the(v, loc, 'none1'); self.nx = the(v, loc, 'none2')
        v.eq('starts from the initial guess', loc[self.nvec], self.p0)
        v.eq('number of iterations', loc['#n'], self.n)
    def havoc(self, loc):
        v = self.v
        self.arb = v.arr('p_any', self.P)
        self.first = v.choose('iteration', ['first', 'later']) == 'first'
        if self.first:
            return {self.nvec: self.arb, self.nw: None, self.nx: None}
        self.w = v.weights('w_any', self.K)
        v.assume(np.sum(self.w) == 1.0)
        self.x = v.arr('x_any', self.T, self.K, self.D)
        return {self.nvec: self.arb, self.nw: np.copy(self.w), self.nx: np.copy(self.x)}
    def modifies(self, loc): return [self.m, self.e, self.log, self.m.log]
    def back(self, loc):
        v = self.v
        v.eq('one simulation, one maximisation', [len(self.log), len(self.m.log)], [1, 1])
        v.eq('simulates with the previous maximiser', self.log[0][0], self.arb)
        (straj, x, w, r) = self.m.log[0]
        v.same('smoothed trajectories', straj, self.log[0][8])
        weights_ok(v, w)
        new = np.sum(F(v, straj.x)) / self.M
        st = new if self.first else (1.0 - self.alpha) * stat(v, self.x, self.w) + self.alpha * new
        v.eq('weighted statistic', stat(v, x, w), st)
        v.eq('kept weights', stat(v, loc[self.nx], loc[self.nw]), st)
        weights_ok(v, loc[self.nw])
        v.eq('the next iteration uses the new maximiser', loc[self.nvec], r)

def ck_saem_induction(v):
    """any number of iterations"""
    T = v.dim('T', 1, 4); D = v.dim('D', 1, 2); P = v.dim('P', 1, 2); M = v.dim('M', 1, 3)
    K = v.dim('K', 1, 5)
    n = v.dim('iterations', 1, 6)
    alpha = v.posnum('alpha')
    if v.symbolic: v.assume(alpha <= 1)
    else: alpha = v.choose('step', [1, alpha / (1 + alpha)])
    p0 = v.arr('p0', P)
    m = Model(); log = []
    trajs = [v.arr('x0', T, M, D)] if v.symbolic else [v.arr('x%d' % k, T, M, D) for k in range(n)]
    m.best = [v.arr('best0', P)] if v.symbolic else [v.arr('best%d' % k, P) for k in range(n)]
    abstract_simulate(v, log, trajs)
    e = pe.ParamEstimationSAEM(m, [None], [1.0])
    loop = Loop(v, (T, K, M, D, P), p0, n, m, e, log, alpha)
    v.cut('pyparticleest.paramest.paramest.ParamEstimationSAEM.maximize', loop)
    (p, q) = e.maximize(p0, 4, M, max_iter=n, alpha_gen=lambda i: alpha)
    v.eq('returns the last maximiser', p, loop.arb if v.symbolic else m.best[n - 1])
    if not v.symbolic:
        v.eq('number of iterations', [len(log), len(m.log)], [n, n])

# ---------------------------------------------------------------- particle conditional variants
class Pa(object):
    def __init__(self, part, w=None): self.part = part; self.w = w
class Step(object):
    def __init__(self, pa): self.pa = pa
class Traj(object):
    def __init__(self, traj): self.traj = traj
class Straj(object):
    """smoothed trajectories of one iteration; anc: ancestral paths of the particles"""
    def __init__(self, x, traj, anc): self.x = x; self.traj = traj; self.anc = anc
    def get_smoothed_estimates(self): return self.x
    def calculate_ancestors(self, pt, ind):
        self.asked = (pt, np.copy(ind))
        return self.anc

def cond_simulate(v, log, outs):
    """Simulator.simulate leaves arbitrary smoothed and filtered trajectories"""
    def simulate(self, num_part, num_traj, filter='PF', filter_options=None, smoother='full', smoother_options=None, res=0.67, meas_first=False):
        (self.straj, self.pt) = outs[len(log)]
        given = filter_options['cond_traj'] if 'cond_traj' in filter_options else None
        log.append((np.copy(self.model.params), num_part, num_traj, filter, given, smoother, meas_first, self.straj, self.pt))
        return 0
    v.patch(ps.Simulator, 'simulate', simulate)

def outcome(v, k, T, M, N, D, rb):
    x = v.arr('x%s' % k, T, M, D)
    s = Straj(x, objects([Step(Pa(x[t])) for t in range(T)]), [Step(Pa(v.arr('a%s_%d' % (k, t), N, D))) for t in range(T)] if rb else None)
    return s, Traj([Step(Pa(None, None))] * (T - 1) + [Step(Pa(None, v.lw('pw%s' % k, N)))])

def objects(l):
    r = np.empty((len(l),), dtype=object)
    for (i, o) in enumerate(l): r[i] = o
    return r

def fresh_part(straj, pt, rb, T):
    """trajectories and weights contributed by one iteration"""
    if rb:
        e = np.exp(pt.traj[T - 1].pa.w)
        return np.stack([straj.anc[t].pa.part for t in range(T)]), e / np.sum(e)
    n = straj.x.shape[1]
    return straj.x, np.ones((n,)) / n

def same_traj(v, label, got, straj, T):
    v.check(label, got is not None and len(got) == T)
    for t in range(T): v.same(label, got[t], straj.traj[t])

def joined(v, old, alpha, straj, pt, rb, T):
    """all trajectories with their weights after an iteration, before any is discarded"""
    (x, w) = fresh_part(straj, pt, rb, T)
    if old is None: return x, w
    (x0, w0) = old
    return np.concatenate((x0, x), axis=1), np.concatenate(((1.0 - alpha) * w0, alpha * w))

def retained(v, x, w, eps, pct, max_traj):
    """the lowest weights are discarded (none above eps, none at or above the percentile), at most max_traj are kept"""
    low = np.max(np.hstack((w[w < np.percentile(w, pct)], 0.0)))
    keep = w > min(eps, low)
    (x, w) = (x[:, keep], w[keep])
    if max_traj > 0 and len(w) > max_traj: (x, w) = (x[:, -max_traj:], w[-max_traj:])
    return x, w

def objective(v, label, got, want):
    """weights on the probability simplex, and the weighted statistic is the one of the retained trajectories"""
    (x, w) = got
    weights_ok(v, w)
    v.check('one weight for every trajectory', len(w) == x.shape[1])
    (xs, ws) = want
    v.eq(label, stat(v, x, w), stat(v, xs, ws) / np.sum(ws))

def step_size(v, k, n):
    if k == 0 and n > 1 or v.choose('step size %d' % k, ['one', 'smaller']) == 'one': return 1
    a = v.posnum('alpha%d' % k)
    if v.symbolic: v.assume(a < 1)
    return a if v.symbolic else a / (1 + a)

def ck_psaem(v):
    """unrolled"""
    v.soft_selections()
    T = v.choose('T', S.longer(v, [1, 2], [5])); D = v.dim('D', 1, 2); P = v.dim('P', 1, 2)
    n = v.choose('iterations', [1, 2]) if v.symbolic else v.choose('iterations', [1, 2, 3, 8])
    N = v.dim('N', 1, 4); M = v.dim('M', 1, 3)
    rb = v.choose('Rao-Blackwellised', [False, True])
    (eps, pct, mt) = v.choose('discard', [(0.0, 0, 0), (0.0, 0, 2)] if n == 1 else [(0.0, 0, 0)]) if v.symbolic else v.choose('discard', [(0.0, 0, 0), (0.0, 0, 2), (0.1, 50, 0), (0.05, 90, 3)])
    outs = [outcome(v, '%d' % k, T, M, N, D, rb) for k in range(n)]
    alphas = [step_size(v, k, n) for k in range(n)]
    p0 = v.arr('p0', P)
    m = Model(); m.best = [v.arr('best%d' % k, P) for k in range(n)]
    log = []; calls = []; asked = []
    cond_simulate(v, log, outs)
    e = pe.ParamEstimationPSAEM(m, [None], [1.0])
    def callback(params, Q, cur_iter):
        calls.append((np.copy(params), cur_iter))
        return len(calls) == n
    def gen(i):
        asked.append(i)
        return alphas[i]
    opts = {}
    if v.choose('used before', [False, True] if n == 1 or not v.symbolic else [False]):
        o0 = outs[0]; outs[0] = outcome(v, ' before', T, M, N, D, rb)
        e.maximize(v.arr('p before', P), N, filter_options={}, callback=lambda params, Q, cur_iter: True, alpha_gen=lambda i: alphas[i], M=M, raoblackwell=rb)
        log.pop(); m.log.pop(); outs[0] = o0
    s = v.snap((p0, [o[0].x for o in outs]))
    (p, q) = e.maximize(p0, N, filter_options=opts, callback=callback, alpha_gen=gen, discard_eps=eps, discard_percentile=pct, M=M, raoblackwell=rb, max_traj=mt)
    v.unchanged('initial guess and smoothed trajectories', (p0, [o[0].x for o in outs]), s)
    v.eq('stops when the callback says so', [len(log), len(m.log), len(calls)], [n, n, n])
    v.eq('step sizes', asked, [k for k in range(n)])
    cur = None
    for k in range(n):
        v.eq('simulates with the previous maximiser', log[k][0], p0 if k == 0 else m.best[k - 1])
        v.eq('number of particles and trajectories', [log[k][1], log[k][2]], [N, M])
        if k == 0: v.check('nothing to condition on', log[k][4] is None)
        else: same_traj(v, 'conditions on the previous trajectory', log[k][4], outs[k - 1][0], T)
        (straj, x, w, r) = m.log[k]
        v.same('smoothed trajectories', straj, log[k][7])
        if rb:
            v.same('ancestral paths of the filtered trajectory', straj.asked[0], log[k][8])
            v.eq('ancestral paths of all particles', straj.asked[1], np.arange(N))
        (xs, ws) = joined(v, cur, alphas[k], straj, log[k][8], rb, T)
        (xs, ws) = retained(v, xs, ws, eps, pct, mt)
        objective(v, 'weighted statistic', (x, w), (xs, ws))
        cur = (xs, ws / np.sum(ws))
        v.eq('callback', calls[k][0], m.best[k])
    v.eq('returns the last maximiser', p, m.best[n - 1])

class PLoop(object):
    """loop contract of the particle conditional variants: arbitrary retained trajectories whose weights are non-negative and sum to one,
    and an arbitrary previous smoothing result to condition on"""
    calls = 'simulate'
    def __init__(self, v, dims, p0, m, e, log, opts, cfg, prev, out):
        self.v = v; (self.T, self.K, self.N, self.D, self.P) = dims
        self.p0 = p0; self.m = m; self.e = e; self.log = log; self.opts = opts; self.cfg = cfg; self.prev = prev; self.out = out
        self.arb = None; self.first = False; self.w = None; self.x = None; self.calls = []
    def entry(self, loc):
        v = self.v
        self.nvec = the(v, loc, 'vector'); self.nnum = the(v, loc, 'number')
        self.nw = the(v, loc, 'none1'); self.nx = the(v, loc, 'none2')
        if not loc[self.nnum] == 0: v.unsupported('loop contract: counts from another number')
        v.eq('starts from the initial guess', loc[self.nvec], self.p0)
        v.check('nothing to condition on', 'cond_traj' not in self.opts)
    def havoc(self, loc):
        v = self.v
        self.arb = v.arr('p_any', self.P)
        self.first = v.choose('iteration', ['first', 'later']) == 'first'
        if self.first: return {self.nvec: self.arb, self.nw: None, self.nx: None, self.nnum: 0}
        self.w = v.weights('w_any', self.K)
        v.assume(np.sum(self.w) == 1.0)
        self.x = v.arr('x_any', self.T, self.K, self.D)
        self.opts['cond_traj'] = self.prev.traj
        self.i = v.dim('done')
        return {self.nvec: self.arb, self.nw: np.copy(self.w), self.nx: np.copy(self.x), self.nnum: self.i}
    def modifies(self, loc): return [self.m, self.e, self.log, self.m.log, self.opts, self.calls, self.cfg[1]] + self.out
    def iteration(self):
        """what one iteration has to do"""
        v = self.v
        (alpha, asked, eps, pct, mt, rb) = self.cfg
        v.eq('one simulation, one maximisation', [len(self.log), len(self.m.log)], [1, 1])
        v.eq('simulates with the previous maximiser', self.log[0][0], self.arb)
        if not self.first: same_traj(v, 'conditions on the previous trajectory', self.log[0][4], self.prev, self.T)
        v.eq('step size', asked, [0 if self.first else self.i])
        (straj, x, w, r) = self.m.log[0]
        v.same('smoothed trajectories', straj, self.log[0][7])
        (xs, ws) = joined(v, None if self.first else (self.x, self.w), alpha, straj, self.log[0][8], rb, self.T)
        (xs, ws) = retained(v, xs, ws, eps, pct, mt)
        objective(v, 'weighted statistic', (x, w), (xs, ws))
        return straj, r, stat(v, xs, ws) / np.sum(ws)
    def back(self, loc):
        v = self.v
        (straj, r, st) = self.iteration()
        weights_ok(v, loc[self.nw])
        v.eq('kept weights', stat(v, loc[self.nx], loc[self.nw]), st)
        v.eq('the next iteration uses the new maximiser', loc[self.nvec], r)
        same_traj(v, 'the next iteration is conditioned on this one', self.opts['cond_traj'], straj, self.T)
        v.eq('number of iterations', loc[self.nnum], 1 if self.first else self.i + 1)

def ck_psaem_induction(v):
    """any number of iterations, any callback"""
    v.soft_selections()
    T = v.choose('T', S.longer(v, [1, 2], [5])); D = v.dim('D', 1, 2); P = v.dim('P', 1, 2)
    N = v.dim('N', 1, 4); K = v.dim('K', 1, 5); M = v.dim('M', 1, 3)
    rb = v.choose('Rao-Blackwellised', [False, True])
    (eps, pct, mt) = (0.0, v.posnum('pct'), 0) if v.symbolic else v.choose('discard', [(0.0, 0, 0), (0.05, 50, 0)])
    n = 1 if v.symbolic else v.dim('iterations', 1, 4)
    outs = [outcome(v, '%d' % k, T, M, N, D, rb) for k in range(n)]
    alpha = v.posnum('alpha')
    if v.symbolic: v.assume(alpha <= 1)
    else: alpha = v.choose('step', [1, alpha / (1 + alpha)])
    p0 = v.arr('p0', P)
    m = Model(); m.best = [v.arr('best%d' % k, P) for k in range(n)]
    log = []; asked = []; calls = []
    cond_simulate(v, log, outs)
    e = pe.ParamEstimationPSAEM(m, [None], [1.0])
    opts = {}
    loop = PLoop(v, (T, K, N, D, P), p0, m, e, log, opts, (alpha, asked, eps, pct, mt, rb), outcome(v, 'prev', T, M, N, D, rb)[0], [o[0] for o in outs])
    def callback(params, Q, cur_iter):
        loop.calls.append(params)
        if v.symbolic: return v.choose('callback', ['stop', 'continue']) == 'stop'
        return len(loop.calls) == n
    def gen(i):
        asked.append(i)
        return alpha
    v.cut('pyparticleest.paramest.paramest.ParamEstimationPSAEM.maximize', loop)
    (p, q) = e.maximize(p0, N, filter_options=opts, callback=callback, alpha_gen=gen, discard_eps=eps, discard_percentile=pct, M=M, raoblackwell=rb, max_traj=mt)
    if v.symbolic:
        (straj, r, st) = loop.iteration()
        v.eq('returns the last maximiser', p, r)
    else:
        v.eq('number of iterations', [len(log), len(m.log)], [n, n])
        v.eq('returns the last maximiser', p, m.best[n - 1])
    v.eq('stops at once', p, loop.calls[len(loop.calls) - 1])

def ck_psaem2(v):
    """unrolled"""
    v.soft_selections()
    T = v.choose('T', S.longer(v, [1, 2], [5])); D = v.dim('D', 1, 2); P = v.dim('P', 1, 2)
    n = v.choose('iterations', [1, 2]) if v.symbolic else v.choose('iterations', [1, 2, 4, 9])
    N = v.dim('N', 1, 4)
    (eps, pct) = (0.0, 0) if v.symbolic else v.choose('discard', [(0.0, 0), (0.1, 50), (0.3, 90)])
    outs = [outcome(v, '%d' % k, T, 1, N, D, False) for k in range(n)]
    alphas = [step_size(v, k, n) for k in range(n)]
    p0 = v.arr('p0', P)
    m = Model(); m.best = [v.arr('best%d' % k, P) for k in range(n)]
    log = []; calls = []; asked = []
    cond_simulate(v, log, outs)
    e = pe.ParamEstimationPSAEM2(m, [None], [1.0])
    def callback(params, Q, cur_iter): calls.append(np.copy(params))
    def gen(i):
        asked.append(i)
        return alphas[i]
    opts = {}
    if v.choose('used before', [False, True] if n == 1 or not v.symbolic else [False]):
        o0 = outs[0]; outs[0] = outcome(v, ' before', T, 1, N, D, False)
        e.maximize(v.arr('p before', P), N, max_iter=1, filter_options={}, alpha_gen=lambda i: alphas[i])
        log.pop(); m.log.pop(); outs[0] = o0
    s = v.snap((p0, [o[0].x for o in outs]))
    (p, q) = e.maximize(p0, N, max_iter=n, filter_options=opts, callback=callback, alpha_gen=gen, discard_eps=eps, discard_percentile=pct)
    v.unchanged('initial guess and smoothed trajectories', (p0, [o[0].x for o in outs]), s)
    v.eq('number of iterations', [len(log), len(m.log), len(calls)], [n, n, n])
    v.eq('step sizes', asked, [k for k in range(n)])
    cur = None
    for k in range(n):
        v.eq('simulates with the previous maximiser', log[k][0], p0 if k == 0 else m.best[k - 1])
        v.eq('number of particles and trajectories', [log[k][1], log[k][2]], [N, 1])
        if k == 0: v.check('nothing to condition on', log[k][4] is None)
        else: same_traj(v, 'conditions on the previous trajectory', log[k][4], outs[k - 1][0], T)
        (straj, x, w, r) = m.log[k]
        v.same('smoothed trajectories', straj, log[k][7])
        (xs, ws) = joined(v, cur, alphas[k], straj, log[k][8], False, T)
        (xs, ws) = retained(v, xs, ws, eps, pct, 0)
        objective(v, 'weighted statistic', (x, w), (xs, ws))
        cur = (xs, ws / np.sum(ws))
        v.eq('callback', calls[k], m.best[k])
    v.eq('returns the last maximiser', p, m.best[n - 1])

class P2Loop(object):
    """loop contract of ParamEstimationPSAEM2.maximize: the first entries of the two buffers (at most one per iteration so far) hold arbitrary
    retained trajectories and weights that are non-negative and sum to one; the rest of the buffers is arbitrary"""
    calls = 'simulate'
    def __init__(self, v, dims, p0, n, m, e, log, opts, cfg, prev, out):
        self.v = v; (self.T, self.K, self.E, self.N, self.D, self.P) = dims
        self.p0 = p0; self.n = n; self.m = m; self.e = e; self.log = log; self.opts = opts; self.cfg = cfg; self.prev = prev; self.out = out
        self.arb = None; self.first = False; self.w = None; self.x = None; self.calls = []
    def entry(self, loc):
        v = self.v
        if '#n' not in loc: v.unsupported('loop contract: not a counted loop')
        self.nvec = the(v, loc, 'vector'); self.nnum = the(v, loc, 'number')
        self.nw = the(v, loc, 'buffer'); self.nx = the(v, loc, 'none2')
        v.eq('starts from the initial guess', loc[self.nvec], self.p0)
        v.eq('nothing retained', loc[self.nnum], 0)
        v.eq('number of iterations', loc['#n'], self.n)
        v.check('nothing to condition on', 'cond_traj' not in self.opts)
    def havoc(self, loc):
        v = self.v
        self.arb = v.arr('p_any', self.P)
        self.i = loc['#i']
        b = loc[self.nw]
        b[...] = v.arr('rest', self.n * self.N)
        self.first = v.choose('iteration', ['first', 'later']) == 'first'
        if self.first:
            v.assume(self.i == 0)
            return {self.nvec: self.arb, self.nx: None, self.nnum: 0}
        v.assume(self.K <= self.i)
        self.w = v.weights('w_any', self.K)
        v.assume(np.sum(self.w) == 1.0)
        b[:self.K] = self.w
        x = v.arr('x_any', self.T, self.K + self.E - 1, self.D)
        self.x = np.copy(x[:, :self.K])
        self.opts['cond_traj'] = self.prev.traj
        return {self.nvec: self.arb, self.nx: np.copy(x), self.nnum: self.K}
    def modifies(self, loc): return [self.m, self.e, self.log, self.m.log, self.opts, self.calls, self.cfg[1], loc[self.nw]] + self.out
    def back(self, loc):
        v = self.v
        (alpha, asked, eps, pct) = self.cfg
        v.eq('one simulation, one maximisation', [len(self.log), len(self.m.log)], [1, 1])
        v.eq('simulates with the previous maximiser', self.log[0][0], self.arb)
        v.eq('number of particles and trajectories', [self.log[0][1], self.log[0][2]], [self.N, 1])
        if not self.first: same_traj(v, 'conditions on the previous trajectory', self.log[0][4], self.prev, self.T)
        v.eq('step size', asked, [self.i])
        (straj, x, w, r) = self.m.log[0]
        v.same('smoothed trajectories', straj, self.log[0][7])
        (xs, ws) = joined(v, None if self.first else (self.x, self.w), alpha, straj, self.log[0][8], False, self.T)
        (xs, ws) = retained(v, xs, ws, eps, pct, 0)
        objective(v, 'weighted statistic', (x, w), (xs, ws))
        k = loc[self.nnum]
        v.check('at most one retained per iteration', k <= self.i + 1)
        weights_ok(v, loc[self.nw][:k])
        v.check('one weight for every trajectory', k <= loc[self.nx].shape[1])
        v.eq('kept weights', stat(v, loc[self.nx][:, :k], loc[self.nw][:k]), stat(v, xs, ws) / np.sum(ws))
        v.eq('the next iteration uses the new maximiser', loc[self.nvec], r)
        same_traj(v, 'the next iteration is conditioned on this one', self.opts['cond_traj'], straj, self.T)
        v.eq('callback', self.calls, [r])

def ck_psaem2_induction(v):
    """any number of iterations"""
    v.soft_selections()
    T = v.choose('T', S.longer(v, [1, 2], [5])); D = v.dim('D', 1, 2); P = v.dim('P', 1, 2)
    K = v.dim('K', 1, 5); E = v.dim('E', 1, 3)
    N = v.choose('N', [1, 4])
    n = v.dim('iterations', 1, 5)
    (eps, pct) = (0.0, v.posnum('pct')) if v.symbolic else v.choose('discard', [(0.0, 0), (0.05, 50)])
    cnt = 1 if v.symbolic else n
    outs = [outcome(v, '%d' % k, T, 1, N, D, False) for k in range(cnt)]
    alpha = v.posnum('alpha')
    if v.symbolic: v.assume(alpha <= 1)
    else: alpha = v.choose('step', [1, alpha / (1 + alpha)])
    p0 = v.arr('p0', P)
    m = Model(); m.best = [v.arr('best%d' % k, P) for k in range(cnt)]
    log = []; asked = []
    cond_simulate(v, log, outs)
    e = pe.ParamEstimationPSAEM2(m, [None], [1.0])
    opts = {}
    loop = P2Loop(v, (T, K, E, N, D, P), p0, n, m, e, log, opts, (alpha, asked, eps, pct), outcome(v, 'prev', T, 1, N, D, False)[0], [o[0] for o in outs])
    def callback(params, Q, cur_iter): loop.calls.append(np.copy(params))
    def gen(i):
        asked.append(i)
        return alpha
    v.cut('pyparticleest.paramest.paramest.ParamEstimationPSAEM2.maximize', loop)
    (p, q) = e.maximize(p0, N, max_iter=n, filter_options=opts, callback=callback, alpha_gen=gen, discard_eps=eps, discard_percentile=pct)
    v.eq('returns the last maximiser', p, loop.arb if v.symbolic else m.best[n - 1])
    if not v.symbolic: v.eq('number of iterations', [len(log), len(m.log)], [n, n])

def ck_default_steps(v):
    """the step sizes used unless others are given lie in (0, 1]"""
    it = v.dim('iteration', 1, 400) - 1 if v.symbolic else v.choose('iteration', [0, 1, 50, 99, 100, 101, 102, 103, 150, 1000])
    a = pe.alpha_gen(it)
    v.check('at most one', a <= 1)
    v.check('positive', a > 0)
CONTRACTS.append('ck_default_steps')
SYM = {}
