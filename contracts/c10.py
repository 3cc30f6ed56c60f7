"""P10: backward simulation samples from the smoothing weights; trajectories are consistent."""
import numpy as np
import pyparticleest.filter as pf
import pyparticleest.smoother as sm
import contracts.stubs as S
from contracts.loops import the

def ck_bsi_full(v):
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3); K = v.dim('K', 1, 3)
    P = v.choose('earlier steps', S.longer(v, [0, 1, 2], [5])); F = v.choose('later steps', S.longer(v, [1, 2], [4]))
    (traj, u, y, t) = S.history(v, N, D, P + F + 1)
    past = traj[:P]
    pa = traj[P].pa
    ft = [S.step(v, 'f%d' % j, K, D) for j in range(F)]
    for s in ft[1:]: s.ancestors = v.idx('fanc', K, K)
    pind = traj[P].ancestors
    find = v.idx('find', K, M)
    m = S.FullModel(v, D)
    s = v.snap((traj, ft, pind, find))
    def probs(j):
        f = find[j] * np.ones(N, dtype=int)
        lp = v.rowuf('lpf', N, (), [pa.part] + S.past(past, pind) + S.future(ft, f), S.sig(u, y, t, P))
        return S.softmax(pa.w + lp)
    v.conditional('index', lambda: (sm.bsi_full(m, pa, past, pind, ft, find, u, y, t, P), probs))
    v.unchanged('frame', (traj, ft, pind, find), s)

def setup(v):
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3)
    T = v.choose('steps recorded', S.longer(v, [1, 2, 3], [7]))
    (traj, u, y, t) = S.history(v, N, D, T)
    S.numbered(traj)
    pt = S.recorded(v, S.FullModel(v, D), traj, u, y, t)
    return (N, D, M, T, traj, u, y, t, pt)

def consistent(v, N, D, M, T, traj, u, y, t, st, first):
    """every smoothed step is made of recorded particles with their recorded ancestors and their own future"""
    v.eq('number of smoothed steps', len(st.traj), T)
    for k in range(first, T):
        x = st.traj[k].pa.part
        ind = x[:, 0]
        w = traj[k]
        ind = v.asidx(ind)
        row = w.pa.part[ind]
        e = v.rowuf('ss', M, (D,), [row] + S.past(traj[:k], w.ancestors[ind]) + S.future(None if k == T - 1 else st.traj[k + 1:], np.arange(M)),
                    S.sig(u[:T], y[:T], t[:T], k))
        e[:, 0] = ind
        v.eq('state at step %d' % k, x, e)
        v.eq('ancestors at step %d' % k, st.traj[k].ancestors, np.arange(M))

def ck_full(v):
    (N, D, M, T, traj, u, y, t, pt) = setup(v)
    v.sampling()
    v.lowvar('final indices', lambda: sm.SmoothTrajectory(pt, M, 'full'), S.softmax(traj[T - 1].pa.w), M,
             lambda st: st.traj[T - 1].pa.part[:, 0])
    k = v.choose('step drawn', list(range(T - 1))) if T > 1 else -1
    if k >= 0:
        out = []
        def run():
            st = sm.SmoothTrajectory(pt, M, 'full')
            def probs(j):
                ft = [s for s in st.traj[k + 1:]]
                f = j * np.ones(N, dtype=int)
                lp = v.rowuf('lpf', N, (), [traj[k].pa.part] + S.past(traj[:k], traj[k].ancestors) + S.future(ft, f), S.sig(u[:T], y[:T], t[:T], k))
                return S.softmax(traj[k].pa.w + lp)
            if len(out) == 0:
                consistent(v, N, D, M, T, traj, u, y, t, st, k)
            out.append(st)
            return (st.traj[k].pa.part[:, 0], probs)
        v.conditional('index', run)

def ck_ancestor(v):
    (N, D, M, T, traj, u, y, t, pt) = setup(v)
    v.sampling()
    st = v.lowvar('final indices', lambda: sm.SmoothTrajectory(pt, M, 'ancestor'), S.softmax(traj[T - 1].pa.w), M,
                  lambda st: st.traj[T - 1].pa.part[:, 0])
    consistent(v, N, D, M, T, traj, u, y, t, st, 0)
    for k in range(T - 1):
        nxt = v.asidx(st.traj[k + 1].pa.part[:, 0])
        v.eq('follows the recorded ancestors at step %d' % k, st.traj[k].pa.part[:, 0], traj[k + 1].ancestors[nxt])

# ------------------------------------------------------------------ any number of time steps
class AnyModel(object):
    """arbitrary model; keeps what sample_smooth is given"""
    def __init__(self, v, D): self.v = v; self.D = D; self.log = []
    def sample_smooth(self, part, ptraj, anc, future_trajs, find, ut, yt, tt, cur_ind):
        r = self.v.fresh(len(part), self.D)
        self.log.append((part.copy(), ptraj, anc.copy(), future_trajs, find, ut, yt, tt, cur_ind, r))
        return r.copy()

class StepLoop(object):
    """the loop over the time steps, backwards: what is given to the sampler and to the model at an arbitrary step, and what is kept"""
    calls = 'sample_smooth'
    def __init__(self, v, pt, M, method, opts):
        self.v = v; self.pt = pt; self.M = M; self.method = method; self.opts = opts; self.m = pt.pf.model; self.drawn = []; self.final = []; self.traj = None
        self.carried = method in ('ancestor', 'mcmc'); self.obj = None; self.iota = []

    def sampler(self, model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, q):
        ind = self.v.fresh_idx(len(pa.w), len(find))
        self.drawn.append((model, pa, ptraj, pind.copy(), future_trajs, find.copy(), ut, yt, tt, cur_ind, q, ind))
        return ind.copy()

    def at(self, what, call, k, ind, future):
        """one call of sample_smooth for step k and particles ind"""
        v = self.v; pt = self.pt
        (part, ptraj, anc, ft, find, ut, yt, tt, ix, r) = call
        v.eq(what + ': particles', part, pt.X[k][ind])
        v.same(what + ': past', ptraj.owner, pt)
        v.eq(what + ': past', [ptraj.lo, ptraj.hi], [0, k])
        v.eq(what + ': ancestors', anc, pt.A[k][ind])
        if future is None:
            v.check(what + ': no future', ft is None)
        else:
            v.same(what + ': future', ft.owner, future)
            v.eq(what + ': future', [ft.lo, ft.hi], [k + 1, pt.T])
            v.eq(what + ': trajectories', find, np.arange(self.M))
        self.data(what, ut, yt, tt, ix, k)

    def data(self, what, ut, yt, tt, ix, k):
        v = self.v; pt = self.pt
        v.eq(what + ': inputs', ut, pt.uvec)
        v.eq(what + ': measurements', yt, pt.yvec)
        v.eq(what + ': time stamps', tt, pt.tvec)
        v.eq(what + ': step', ix, k)

    def entry(self, loc):
        v = self.v; pt = self.pt
        v.eq('one draw of final indices', len(self.final), 1)
        (w, n, ind) = self.final[0]
        v.eq('weights of the final indices', w, S.softmax(pt.W[pt.T - 1]))
        v.eq('number of final indices', n, self.M)
        v.eq('one state drawn for the last step', len(self.m.log), 1)
        self.at('last step', self.m.log[0], pt.T - 1, ind, None)
        tr = loc['self'].traj if '#objects' not in loc else loc[the(v, loc, 'objects')]
        v.eq('length of the trajectory', len(tr), pt.T)
        last = tr[pt.T - 1]
        v.eq('state at the last step', last.pa.part, self.m.log[0][9])
        v.eq('equal weights', last.pa.w, last.pa.w[0] * np.ones(self.M))
        v.eq('ancestors at the last step', last.ancestors, np.arange(self.M))
        v.eq('number of steps left', loc['#n'], pt.T - 1)
        if self.carried:
            self.name = None
            for nm in loc['#index']:
                if nm in loc['#stores'] and loc[nm] is not self.obj:
                    if self.name is not None: v.unsupported('loop contract: more than one index array')
                    self.name = nm
            if self.name is None: v.unsupported('loop contract: no index array')
            v.eq('current indices before the loop', loc[self.name], pt.A[pt.T - 1][ind])

    def havoc(self, loc):
        v = self.v; pt = self.pt
        self.traj = S.Assembled(v, pt.T)
        h = {}
        if '#objects' in loc:
            h[the(v, loc, 'objects')] = self.traj
        else:
            loc['self'].traj = self.traj
        while len(self.m.log) > 0: self.m.log.pop()
        while len(self.drawn) > 0: self.drawn.pop()
        if self.carried:
            self.ind = v.fresh_idx(pt.X.shape[1], self.M)
            h[self.name] = self.ind.copy()
        for nm in (loc['#iota'] if '#iota' in loc else []):
            if nm in loc['#stores']:
                h[nm] = np.arange(self.M)
                self.iota.append(nm)
        return h

    def modifies(self, loc): return [self.traj, self.traj.log, self.m.log, self.drawn]

    def back(self, loc):
        v = self.v; pt = self.pt
        k = pt.T - 2 - loc['#i']
        if self.method == 'ancestor':
            ind = self.ind
        else:
            v.eq('one draw', len(self.drawn), 1)
            (model, pa, ptraj, pind, ft, find, ut, yt, tt, ix, q, ind) = self.drawn[0]
            v.same('sampler: model', model, self.m)
            v.eq('sampler: particles', pa.part, pt.X[k])
            v.eq('sampler: weights', pa.w, pt.W[k])
            v.same('sampler: past', ptraj.owner, pt)
            v.eq('sampler: past', [ptraj.lo, ptraj.hi], [0, k])
            v.eq('sampler: ancestors', pind, pt.A[k])
            v.same('sampler: future', ft.owner, self.traj)
            v.eq('sampler: future', [ft.lo, ft.hi], [k + 1, pt.T])
            v.eq('sampler: trajectories', find, np.arange(self.M))
            self.data('sampler', ut, yt, tt, ix, k)
            for n in q:
                if n == 'maxpdf': v.eq('bound of the transition density', q[n], self.opts['maxpdf'][k])
                elif n == 'ancestors': v.eq('current indices', q[n], self.ind)
                else: v.eq('option ' + n, q[n], self.opts['R' if n == 'max_iter' else n])
        v.eq('one state drawn', len(self.m.log), 1)
        self.at('state', self.m.log[0], k, ind, self.traj)
        v.eq('one step written', len(self.traj.log), 1)
        (kk, x) = self.traj.log[0]
        v.eq('step written', kk, k)
        v.eq('state written', x.pa.part, self.m.log[0][9])
        v.eq('ancestors written', x.ancestors, np.arange(self.M))
        if self.carried:
            v.eq('current indices after the step', loc[self.name], pt.A[k][ind])
        for nm in self.iota:
            v.eq('every trajectory', loc[nm], np.arange(self.M))

def any_length(v, method):
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3)
    T = v.dim('T', 1, 12)
    m = AnyModel(v, D)
    pt = S.Filtered(v, T, N, D, m)
    opts = {'R': v.dim('R', 0, 3), 'maxpdf': v.arr('maxpdf', T), 'x1': v.num('x1'), 'P1': v.num('P1'), 'sv': v.num('sv'), 'sw': v.num('sw'), 'ratio': v.num('ratio')}
    loop = StepLoop(v, pt, M, method, opts)
    def final(w, n):
        ind = v.fresh_idx(len(w), n)
        loop.final.append((w.copy(), n, ind))
        loop.obj = ind.copy()
        return loop.obj
    v.replace('pyparticleest.filter.sample', final)
    def full(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind):
        return loop.sampler(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, {})
    def rs(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, max_iter):
        return loop.sampler(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, {'maxpdf': maxpdf, 'max_iter': max_iter})
    def rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, x1, P1, sv, sw, ratio):
        return loop.sampler(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind,
                            {'maxpdf': maxpdf, 'x1': x1, 'P1': P1, 'sv': sv, 'sw': sw, 'ratio': ratio})
    def mcmc(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, R, ancestors):
        return loop.sampler(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, {'R': R, 'ancestors': ancestors.copy()})
    for (n, f) in [('full', full), ('rs', rs), ('rsas', rsas), ('mcmc', mcmc)]:
        v.replace('pyparticleest.smoother.bsi_' + n, f)
    v.cut('pyparticleest.smoother.SmoothTrajectory.' + ('calculate_ancestors' if method == 'ancestor' else 'perform_bsi'), loop)
    st = sm.SmoothTrajectory(pt, M, method, opts)
    if loop.traj is None:
        v.unsupported('loop contract: no such loop')
    v.same('the trajectory assembled', st.traj, loop.traj)

def ck_full_any(v):
    """any number of time steps"""
    if v.symbolic: any_length(v, 'full')
    else: (lambda a: consistent(v, *a))(longer(v, 'full'))

def ck_ancestor_any(v):
    """any number of time steps"""
    if v.symbolic: any_length(v, 'ancestor')
    else: (lambda a: consistent(v, *a))(longer(v, 'ancestor'))

def longer(v, method):
    """concrete counterpart: long histories"""
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3)
    T = v.dim('T', 1, 12)
    (traj, u, y, t) = S.history(v, N, D, T)
    S.numbered(traj)
    pt = S.recorded(v, S.FullModel(v, D), traj, u, y, t)
    return (N, D, M, T, traj, u, y, t, pt.perform_smoothing(M, method), 0)

CONTRACTS = ['ck_bsi_full', 'ck_full', 'ck_ancestor', 'ck_full_any', 'ck_ancestor_any']
