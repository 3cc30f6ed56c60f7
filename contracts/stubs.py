"""Model stand-ins used by the contracts: user models are arbitrary, so every model method is an uninterpreted function
of exactly what it is passed (row by row, as the model interface requires)."""
import math
import numpy as np
import pyparticleest.interfaces as pinterf
import pyparticleest.filter as pf

class PFModel(pinterf.ParticleFiltering, pinterf.FFBSiRS):
    """arbitrary Markov model with particles in an (N, D) array; the *_full / *_singlestep wrappers are the library's own"""
    def __init__(self, v, D):
        self.v = v
        self.D = D

    def create_initial_estimate(self, N):
        return self.v.arr('x_init', N, self.D)

    def sample_process_noise(self, particles, u, t):
        return self.v.rowuf('noise', len(particles), (self.D,), [particles], u, t)

    def update(self, particles, u, t, noise):
        particles[:] = self.v.rowuf('f', len(particles), (self.D,), [particles, noise], u, t)
        return particles

    def measure(self, particles, y, t):
        return self.v.rowuf('g', len(particles), (), [particles], y, t)

    def logp_xnext(self, particles, next_part, u, t):
        return self.v.rowuf('lp', len(particles), (), [particles, next_part], u, t)

    def logp_xnext_max(self, particles, u, t):
        return self.v.uf('lpmax', (), particles, u, t)

    def eval_1st_stage_weights(self, particles, u, y, t):
        return self.v.rowuf('l1', len(particles), (), [particles], u, y, t)

    def qsample(self, particles, u, y, t):
        return self.v.rowuf('q', len(particles), (self.D,), [particles], u, y, t)

    def logp_q(self, particles, next_part, u, y, t):
        return self.v.rowuf('lq', len(particles), (), [particles, next_part], u, y, t)

    def propose_from_y(self, N, y, t):
        return self.v.rowuf('qy', N, (self.D,), [np.arange(N)], y, t)

class SmModel(PFModel):
    """adds a smoothing proposal and an initial density"""
    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        (prev, nxt) = self.ends(ptraj, anc, future_trajs, find)
        n = len(find) if anc is None else len(anc)
        return self.v.rowuf('pr', n, (self.D,), [prev, nxt, np.arange(n)], yt[cur_ind], ut[cur_ind], tt[cur_ind])

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        (prev, nxt) = self.ends(ptraj, anc, future_trajs, find)
        return self.v.rowuf('lpr', len(prop_part), (), [prop_part, prev, nxt], yt[cur_ind], ut[cur_ind], tt[cur_ind])

    def ends(self, ptraj, anc, future_trajs, find):
        prev = None if ptraj is None else ptraj[-1].pa.part[anc]
        nxt = None if future_trajs is None else future_trajs[0].pa.part[find]
        return (prev, nxt)

    def eval_logp_x0(self, particles, t):
        return self.v.rowuf('lx0', len(particles), (), [particles], t)

def recorded(v, model, traj, u, y, t):
    """a filter trajectory as the smoothers receive it"""
    pt = pf.ParticleTrajectory(model, len(traj[0].pa.part), T=len(traj))
    pt.traj = traj
    for k in range(len(traj)):
        pt.uvec[k] = u[k]
        pt.yvec[k] = y[k]
    pt.tvec = np.array(t[:len(traj)])
    pt.ind = len(traj) - 1
    return pt

def step(v, name, N, D):
    """arbitrary recorded time step"""
    return pf.TrajectoryStep(pf.ParticleApproximation(v.arr('part_' + name, N, D), v.lw('w_' + name, N)),
                             ancestors=v.idx('anc_' + name, N, N))

def history(v, N, D, T, missing=False):
    """T arbitrary recorded steps; inputs, measurements and time stamps of T+1 steps (the last measurement possibly missing)"""
    du = v.dim('du', 1, 2); dy = v.dim('dy', 1, 2)
    traj = []; u = []; y = []; t = []
    for k in range(T):
        traj.append(step(v, str(k), N, D))
    for k in range(T + 1):
        u.append(v.arr('u%d' % k, du)); t.append(v.tag('t%d' % k))
        y.append(None if (missing and k == T) else v.arr('y%d' % k, dy))
    return (traj, u, y, t)

def reference(v, D, T):
    """conditioned-on trajectory: one particle per time step"""
    return [pf.TrajectoryStep(pf.ParticleApproximation(v.arr('ref%d' % k, 1, D)), ancestors=np.zeros((1,), dtype=int)) for k in range(T + 1)]

def softmax(w):
    e = np.exp(w - np.max(w))
    return e / np.sum(e)

def abstract_sample(v):
    """callers of `sample` are checked against its contract (valid indices; established by P04), not its body"""
    if v.symbolic:
        v.replace('pyparticleest.filter.sample', lambda w, n: v.fresh_idx(len(w), n))

def abstract_mc_step(v, D):
    """callers of `mc_step` are checked against its frame: it returns fresh arrays and modifies nothing (ck_mc_step)"""
    if v.symbolic:
        def fresh(model, part, ptraj, pind_prop, pind_curr, future_trajs, find, ut, yt, tt, cur_ind, reduced):
            return (v.fresh(len(part), D), v.fresh(len(part)) > 0)
        v.replace('pyparticleest.smoother.mc_step', fresh)

def abstract_rejection(v):
    """callers of bsi_rs / bsi_rsas are checked against their contract (P11): one valid index per trajectory, nothing modified"""
    if v.symbolic:
        v.replace('pyparticleest.smoother.bsi_rs',
                  lambda model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, max_iter: v.fresh_idx(len(pa.w), len(find)))
        v.replace('pyparticleest.smoother.bsi_rsas',
                  lambda model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, x1, P1, sv, sw, ratio: v.fresh_idx(len(pa.w), len(find)))

class FullModel(SmModel):
    """arbitrary non-Markovian model: every method sees the whole past path and future path of each particle, and the
    inputs, measurements and time stamps; column 0 of the particles identifies them (see `numbered`)"""
    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        return self.v.rowuf('lpf', len(part), (), [part] + past(past_trajs, pind) + future(future_trajs, find), sig(ut, yt, tt, cur_ind))

    def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        return self.v.uf('lpm', (), part, past(past_trajs, pind), rest(uvec, 0), rest(yvec, 0), rest(tvec, 0), cur_ind)

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        r = self.v.rowuf('ss', len(part), (self.D,), [part] + past(ptraj, anc) + future(future_trajs, find),
                         sig(ut, yt, tt, cur_ind))
        r[:, 0] = part[:, 0]
        return r

def rest(x, k, n=None):
    return [x[j] for j in range(k, len(x) if n is None else n)]

def past(traj, anc):
    """the states of the ancestors of each particle, newest first"""
    rows = []
    if traj is None:
        return rows
    for k in range(len(traj)):
        s = traj[len(traj) - 1 - k]
        rows.append(s.pa.part[anc])
        anc = s.ancestors[anc]
    return rows

def future(traj, find):
    rows = []
    if traj is None:
        return rows
    for k in range(len(traj)):
        rows.append(traj[k].pa.part[find])
        find = traj[k].ancestors[find]
    return rows

def numbered(traj):
    """identify particles by their first component, so that a trajectory tells which particles it consists of"""
    for s in traj:
        s.pa.part[:, 0] = np.arange(len(s.pa.part))

class MHModel(FullModel):
    """arbitrary model with smoothing proposals; measuring updates statistics carried by the particles"""
    def prop(self, n, ptraj, anc, ft, find, k):
        return self.v.rowuf('pr', n, (self.D,), [np.arange(n)] + past(ptraj, anc) + future(ft, find), k)

    def lprop(self, x, ptraj, anc, ft, find, k):
        return self.v.rowuf('lpr', len(x), (), [x] + past(ptraj, anc) + future(ft, find), k)

    def propose_smooth(self, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        return self.prop(len(find), ptraj, anc, future_trajs, find, sig(ut, yt, tt, cur_ind))

    def logp_proposal(self, prop_part, ptraj, anc, future_trajs, find, yt, ut, tt, cur_ind):
        return self.lprop(prop_part, ptraj, anc, future_trajs, find, sig(ut, yt, tt, cur_ind))

    def measure_full(self, particles, traj, uvec, yvec, tvec, ancestors):
        rows = [particles] + past(traj, ancestors)
        s = (uvec[-1], yvec[-1], tvec[-1], len(yvec))
        r = self.v.rowuf('gf', len(particles), (), rows, s)
        particles[:] = self.v.rowuf('gx', len(particles), (self.D,), rows, s)
        return r

    def logp_xnext_singlestep(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        return self.v.rowuf('lps', len(part), (), [part] + past(past_trajs, pind) + [future_parts[find]], sig(ut, yt, tt, cur_ind))

    def eval_logp_x0(self, particles, t):
        return self.v.rowuf('lx0', len(particles), (), [particles], t)

    def cond_predict_single_step(self, part, past_trajs, pind, future_parts, find, ut, yt, tt, cur_ind):
        return self.v.rowuf('cp', len(part), (self.D,), [part] + past(past_trajs, pind) + [future_parts[find]], sig(ut, yt, tt, cur_ind))

    def cond_sampled_initial(self, part, t):
        return self.v.rowuf('ci', len(part), (self.D,), [part], t)

    def sample_process_noise_full(self, ptraj, ancestors, ut, tt):
        return self.v.rowuf('nf', len(ancestors), (self.D,), past(ptraj, ancestors), ut[-1], tt[-1], len(ut))

    def update_full(self, particles, traj, uvec, yvec, tvec, ancestors, noise):
        particles[:] = self.v.rowuf('uf', len(particles), (self.D,), [particles, noise] + past(traj, ancestors), uvec[-1], tvec[-1], len(uvec))
        return particles

    def create_initial_estimate(self, N):
        return self.v.rowuf('init', N, (self.D,), [np.arange(N)])

def sig(u, y, t, k):
    """everything a method may depend on besides the states: index, inputs, measurements and time stamps from there on"""
    return (k, rest(u, k), rest(y, k), rest(t, k))

def mh_step(v, D, part, ptraj, pp, pc, ft, find, u, y, t, k, reduced, draw):
    """specification of one Metropolis-Hastings move for all trajectories, given the uniform draws"""
    M = len(part)
    n = np.arange(M)
    s = sig(u, y, t, k)
    if ptraj is None:
        cur = v.rowuf('ci', M, (D,), [part], t[k])
    else:
        s1 = sig(u, y, t, k - 1)
        old = ptraj[-1]
        cur = v.rowuf('cp', M, (D,), past(ptraj, pc) + [part], s1)
    if reduced:
        if ptraj is None:
            prop = v.rowuf('init', M, (D,), [n])
        else:
            noise = v.rowuf('nf', M, (D,), past(ptraj, pp), u[k - 1], t[k - 1], k)
            prop = v.rowuf('uf', M, (D,), [old.pa.part[pp], noise] + past(ptraj, pp), u[k - 1], t[k - 1], k)
        ratio = np.zeros(M)
    else:
        prop = v.rowuf('pr', M, (D,), [n] + past(ptraj, pp) + future(ft, find), s)
        qp = v.rowuf('lpr', M, (), [prop] + past(ptraj, pp) + future(ft, find), s)
        qc = v.rowuf('lpr', M, (), [cur] + past(ptraj, pc) + future(ft, find), s)
        if ptraj is None:
            lp = v.rowuf('lx0', M, (), [prop], t[0])
            lc = v.rowuf('lx0', M, (), [cur], t[0])
        else:
            lp = v.rowuf('lps', M, (), past(ptraj, pp) + [prop], s1)
            lc = v.rowuf('lps', M, (), past(ptraj, pc) + [cur], s1)
        ratio = (lp - lc) + (qc - qp)
    if y[k] is not None:
        rp = [prop] + past(ptraj, pp)
        rc = [cur] + past(ptraj, pc)
        ys = (u[k], y[k], t[k], k + 1)
        ratio = ratio + v.rowuf('gf', M, (), rp, ys) - v.rowuf('gf', M, (), rc, ys)
        prop = v.rowuf('gx', M, (D,), rp, ys)
        cur = v.rowuf('gx', M, (D,), rc, ys)
    if ft is not None:
        ratio = (ratio + v.rowuf('lpf', M, (), [prop] + past(ptraj, pp) + future(ft, find), s)
                 - v.rowuf('lpf', M, (), [cur] + past(ptraj, pc) + future(ft, find), s))
    acc = np.log(draw) < ratio
    x = np.where(acc.reshape((-1, 1)), prop, cur)
    return (x, acc)

class LoggedModel(MHModel):
    """its sample_smooth returns arbitrary states and keeps what it was given"""
    def __init__(self, v, D):
        MHModel.__init__(self, v, D)
        self.calls = []

    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        r = self.v.arr('ss%d' % len(self.calls), len(part), self.D)
        self.calls.append((cur_ind, [part.copy()] + past(ptraj, anc) + future(future_trajs, find), sig(ut, yt, tt, cur_ind), r))
        return r.copy()

    def calls_at(self, k):
        return [c for c in self.calls if c[0] == k]

class Moves(object):
    """specification of the Metropolis-Hastings moves made by a smoother: concretely mh_step with the draws used; symbolically
    the moves are abstracted by the contract of mc_step (ck_mc_step), whose arguments are checked"""
    def __init__(self, v, D, abstract):
        self.v = v
        self.D = D
        self.abstract = abstract and v.symbolic
        self.log = []
        self.n = 0
        if self.abstract:
            v.replace('pyparticleest.smoother.mc_step', self.record)

    def record(self, model, part, ptraj, pind_prop, pind_curr, future_trajs, find, ut, yt, tt, cur_ind, reduced):
        r = (self.v.fresh(len(part), self.D), self.v.fresh(len(part)) > 0)
        self.log.append((self.args(part, ptraj, pind_prop, pind_curr, future_trajs, find, ut, yt, tt, cur_ind, reduced), r))
        return (r[0].copy(), r[1].copy())

    def args(self, part, ptraj, pp, pc, ft, find, u, y, t, k, reduced):
        return [part.copy(), past(ptraj, pp), past(ptraj, pc), future(ft, find), k, rest(u, max(k - 1, 0)), rest(y, k), rest(t, max(k - 1, 0)), 1 if reduced else 0]

    def move(self, part, ptraj, pp, pc, ft, find, u, y, t, k, reduced, draw):
        if not self.abstract:
            return mh_step(self.v, self.D, part, ptraj, pp, pc, ft, find, u, y, t, k, reduced, draw)
        (a, r) = self.log[self.n]
        self.n = self.n + 1
        b = self.args(part, ptraj, pp, pc, ft, find, u, y, t, k, reduced)
        for (name, p, q) in zip(['state', 'proposed ancestors', 'current ancestors', 'future', 'index', 'inputs', 'measurements', 'time stamps', 'kind'], a, b):
            self.v.eq('%s given to the move at step %d' % (name, k), p, q)
        return r

def logn(e, S):
    """exact log-density of the vector e under N(0, S)"""
    return -0.5 * (len(e) * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + e.dot(np.linalg.inv(S)).dot(e))

class Box(object):
    def __init__(self, part): self.part = part

class Step(object):
    """recorded time step holding only particles"""
    def __init__(self, part, ancestors=None):
        self.pa = Box(part)
        self.ancestors = ancestors

def subset(v, name, letters, options):
    """which of the letters: one of the options when proved, any subset when run"""
    if v.symbolic: return v.choose(name, options)
    return ''.join([c for c in letters if v.choose('%s %s' % (name, c), [False, True])])

def longer(v, options, more):
    """numbers of time steps: some when proved, longer ones too when run"""
    return options if v.symbolic else options + more

def lived(v, x, make, use, change):
    """make(x); when run, also a model that was made and used with other matrices and then changed to these"""
    if v.symbolic or not v.choose('used before', [False, True]): return make(x)
    y = {}
    for n in x: y[n] = None if x[n] is None else 1.3 * x[n]
    m = make(y)
    use(m)
    change(m, make(x))
    return m

def agrees(v, label, f, val):
    """the value without the gradient (when run; the derivative of the value is what is proved)"""
    if not v.symbolic: v.eq(label, np.sum(f()), np.sum(val))

def scale(v):
    """orders of magnitude of a covariance (exact arithmetic: none; when run: products of its eigenvalues leave the floating-point range)"""
    return 1.0 if v.symbolic else v.choose('order of magnitude', [1.0, 1.0, 1e-220, 1e220])

def lifted(v, lw):
    """log-weights are known up to a constant"""
    return lw if v.symbolic else lw + v.choose('offset of the log-weights', [0.0, 0.0, -1200.0, 1200.0])

class Steps(object):
    """recorded steps of a trajectory of arbitrary length: particles X[k], log-weights W[k], ancestors A[k]"""
    def __init__(self, X, W, A): self.X = X; self.W = W; self.A = A; self.shape = (len(X),)
    def __len__(self): return len(self.X)
    def __getitem__(self, k): return pf.TrajectoryStep(pf.ParticleApproximation(self.X[k], self.W[k]), ancestors=self.A[k])

def steps(v, name, T, N, D, array=False):
    """(X, W, the steps): symbolic number of steps, or the recorded objects themselves when run"""
    X = v.arr('part_' + name, T, N, D); W = v.arr('w_' + name, T, N)
    s = Steps(X, W, v.idx('anc_' + name, N, T, N))
    if v.symbolic: return (X, W, s)
    s = [s[k] for k in range(T)]
    return (X, W, np.array(s, dtype=object) if array else s)

class View(object):
    """steps lo .. hi - 1 of a trajectory"""
    def __init__(self, owner, k, n):
        lo = 0 if k.start is None else k.start
        hi = n if k.stop is None else k.stop
        if lo < 0: lo = lo + n
        if hi < 0: hi = hi + n
        self.owner = owner; self.lo = lo; self.hi = hi
    def __len__(self): return self.hi - self.lo
    def __getitem__(self, k):
        if isinstance(k, slice):
            r = View(self.owner, k, self.hi - self.lo)
            r.lo = r.lo + self.lo; r.hi = r.hi + self.lo
            return r
        if k < 0: return self.owner[self.hi + k]
        return self.owner[self.lo + k]

class Estimator(object):
    def __init__(self, model): self.model = model

class Filtered(object):
    """a filtered trajectory with any number of recorded steps (symbolic)"""
    def __init__(self, v, T, N, D, model):
        self.T = T; self.pf = Estimator(model)
        self.X = v.arr('part', T, N, D); self.W = v.arr('w', T, N); self.A = v.idx('anc', N, T, N)
        self.uvec = v.arr('u', T); self.yvec = v.arr('y', T); self.tvec = v.arr('t', T)
    def __len__(self): return self.T
    def __getitem__(self, k):
        if isinstance(k, slice): return View(self, k, self.T)
        if k < 0: k = k + self.T
        return pf.TrajectoryStep(pf.ParticleApproximation(self.X[k], self.W[k]), ancestors=self.A[k])

class Assembled(object):
    """a smoothed trajectory with any number of steps; what is written to it is kept"""
    def __init__(self, v, T): self.v = v; self.T = T; self.log = []
    def __len__(self): return self.T
    def __getitem__(self, k):
        if isinstance(k, slice): return View(self, k, self.T)
        self.v.unsupported('step of a trajectory of any length')
    def __setitem__(self, k, x):
        if k < 0: k = k + self.T
        self.log.append((k, x))

def smoothed_object(v, D):
    """a smoothed trajectory (its steps are replaced by the caller)"""
    (traj, u, y, t) = history(v, 1, D, 1)
    return recorded(v, SmModel(v, D), traj, u, y, t).perform_smoothing(1, 'ancestor')

def used_filter(v, f, N, D, T):
    """when run, also a filter that took another step before"""
    if not v.symbolic and v.choose('used before', [False, True]):
        (traj, u, y, t) = history(v, N, D, T)
        f.forward(traj, y, u, t, T - 1)
    return f
