"""P11: rejection and MCMC backward samplers accept correctly."""
import numpy as np
import pyparticleest.filter as pf
import pyparticleest.smoother as sm
import contracts.stubs as S
from contracts.loops import the
import contracts.c10 as c10

class RSModel(S.MHModel):
    """keeps what the transition density was evaluated for: particles (column 0 numbers them) and trajectories"""
    def __init__(self, v, D, shift):
        S.MHModel.__init__(self, v, D)
        self.shift = shift
        self.calls = []

    def logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind):
        lp = S.FullModel.logp_xnext_full(self, part, past_trajs, pind, future_trajs, find, ut, yt, tt, cur_ind) + self.shift
        if len(self.calls) > 3000:
            raise RuntimeError('the sampler does not stop')
        self.calls.append(((part[:, 0] + 0.5).astype(int), np.array(find), lp.copy()))
        return lp

def setup(v):
    N = v.dim('N', 2, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 4)
    P = v.choose('earlier steps', S.longer(v, [0, 1, 2], [5])); F = v.choose('later steps', S.longer(v, [1, 2], [4]))
    (traj, u, y, t) = S.history(v, N, D, P + F + 1)
    S.numbered(traj)
    return (N, D, M, P, traj, u, y, t)

def density(v, m, pa, past, pind, ft, find, s):
    """transition log-density of every pair (trajectory, particle)"""
    N = len(pind)
    return np.array([v.rowuf('lpf', N, (), [pa.part] + S.past(past, pind) + S.future(ft, find[j] * np.ones(N, dtype=int)), s) + m.shift
                     for j in range(len(find))])

def inside(v, label, i, u, p):
    """index i is the inverse of the cdf of p at u"""
    c = np.cumsum(p)
    v.check(label, 0 <= i < len(p) and c[i] - p[i] - 1e-9 <= u <= c[i] + 1e-9)

def rejection_concrete(v, kind):
    """the accepted candidates follow from the uniform draws: all of them equal (then every test is decided), one of them varied
    (each test has a draw of its own), and independent ones (every trajectory is offered particles by their weights)"""
    (N, D, M, P, traj, u, y, t) = setup(v)
    K = M + v.choose('further trajectories', [0, 1])
    ft = [S.step(v, 'f%d' % j, K, D) for j in range(v.choose('recorded future', [1, 2]))]
    for s in ft[1:]: s.ancestors = v.idx('fanc', K, K)
    m = RSModel(v, D, v.choose('level', [0.0, 3.0]))
    pa = traj[P].pa; past = traj[:P]; pind = traj[P].ancestors
    find = v.rng.permutation(K)[:M]
    s = S.sig(u, y, t, P)
    L = density(v, m, pa, past, pind, ft, find, s)
    maxpdf = np.max(L) + v.choose('slack of the bound', [0.0, 0.5])
    w = S.softmax(pa.w)
    full = [S.softmax(pa.w + L[j]) for j in range(M)]
    rounds = v.choose('rounds', [0, 1, 2, 5]) if kind == 'rs' else None
    opts = [v.choose('x1', [1.0, 0.2]), 1.0, v.choose('sv', [1.0, 0.1]), v.choose('sw', [1.0, 0.3]), v.choose('ratio', [1.0, 0.3])] if kind == 'rsas' else None
    before = v.snap((traj, ft, find))
    def run():
        m.calls = []
        if kind == 'rs':
            return sm.bsi_rs(m, pa, past, pind, ft, find, u, y, t, P, maxpdf, rounds)
        return sm.bsi_rsas(m, pa, past, pind, ft, find, u, y, t, P, maxpdf, opts[0], opts[1], opts[2], opts[3], opts[4])
    def split(res):
        """the rounds (candidate for each trajectory tested) and the trajectories completed exactly"""
        rs = []; ex = []
        for (c, f, lp) in m.calls:
            if len(c) == N and np.all(f == f[0]) and np.all(c == np.arange(N)):
                ex.append(int(np.nonzero(find == f[0])[0][0]))
            else:
                v.check('no rejection round after the exact draws', len(ex) == 0)
                rs.append(([int(np.nonzero(find == q)[0][0]) for q in f], c, lp))
        v.eq('one index for every trajectory', np.asarray(res).shape, (M,))
        for (js, c, lp) in rs:
            v.eq('evaluated densities', lp, [L[j, i] for (j, i) in zip(js, c)])
        if kind == 'rs':
            v.check('number of rounds', len(rs) <= rounds and (len(rs) == rounds or len(ex) == 0))
        else:
            v.check('at least one round', len(rs) >= 1)
        return (rs, ex)
    def follow(res, rs, ex, accepted):
        todo = list(range(M))
        for (js, c, lp) in rs:
            v.eq('tests exactly the trajectories still open', sorted(js), todo)
            for (j, i, q) in zip(js, c, lp):
                if accepted(j, i, q):
                    v.eq('accepted candidate', res[j], i)
                    todo.remove(j)
        v.eq('completes exactly the trajectories still open', sorted(ex), todo)
        return todo
    for c in [1e-6, 0.03, 0.15, 0.3, 0.5, 0.7, 0.9, 0.97, 1.0 - 1e-9]:
        (res, draws) = constant(v, run, c)
        (rs, ex) = split(res)
        margin = [abs(np.log(c) - (q - maxpdf)) for (js, i, lp) in rs for q in lp]
        if len(margin) == 0 or min(margin) > 1e-9:
            for j in follow(res, rs, ex, lambda j, i, q: np.log(c) < q - maxpdf):
                inside(v, 'exact draw', int(res[j]), c, full[j])
    v.unchanged('frame', (traj, ft, find), before)
    one_draw_each(v, run, lambda: split_accept(m, find, N, 0), M)
    first = np.zeros(N); later = np.zeros(N); nl = 0
    K = 160
    for k in range(K):
        res = run()
        v.check('valid indices', np.all((res >= 0) & (res < N)))
        (rs, ex) = split(res)
        if len(rs) > 0 and M > 1:
            first[rs[0][1][list(rs[0][0]).index(0)]] += 1.0 / K
        for r in rs[1:]:
            if len(r[0]) > 1:
                later[r[1][0]] += 1; nl += 1
    if len(rs) > 0 and M > 1:
        v.check('the first trajectory is offered particles by their weights', np.max(np.abs(first - w)) < 0.2)
        if nl > 150:
            v.check('open trajectories are offered particles by their weights', np.max(np.abs(later / nl - w)) < 0.2)
    offered(v, run, m, N, M, w, 0)

def constant(v, run, c):
    """all uniform draws equal"""
    with v.draws(lambda i: c):
        return (np.asarray(run()), None)

def offered(v, run, m, N, M, w, first):
    """on average each particle is offered in proportion to its weight"""
    K = 200
    acc = np.zeros(N)
    for k in range(K):
        with v.draws(lambda i: (k + 0.5) / K):
            run()
        if len(m.calls) <= first or (first == 0 and len(m.calls[0][0]) == N and np.all(m.calls[0][1] == m.calls[0][1][0])):
            return
        acc = acc + np.bincount(m.calls[first][0], minlength=N) / float(K * M)
    v.check('candidates are drawn by their weights', np.max(np.abs(acc - w)) < 3.0 / K + 0.005)

def split_accept(m, find, N, k):
    """(candidates offered in round k, trajectories decided in it)"""
    (c, f, lp) = m.calls[k]
    nxt = [g for (d, g, q) in m.calls[k + 1:k + 2]]
    left = set()
    if len(nxt) > 0:
        left = set(nxt[0])
        if len(m.calls[k + 1][0]) == N and len(left) == 1 and np.all(m.calls[k + 1][0] == np.arange(N)):
            left = set(g[0] for (d, g, q) in m.calls[k + 1:])
    return (list(c), [int(j in left) for j in f])

def one_draw_each(v, run, outcome, M):
    """changing one uniform draw changes the decision for at most one trajectory, the same one for every value"""
    st = v.rng.uniform(size=200)
    seed = int(v.rng.randint(1000000))
    def go(us):
        np.random.seed(seed)
        with v.draws(lambda i: us[i % len(us)]) as p:
            run()
        return (outcome(), p.n)
    ((c0, a0), n) = go(st)
    for q in range(min(n, 3 * M + 4)):
        ch = set()
        for val in [1e-7, 0.3, 0.6, 1 - 1e-7]:
            us = st.copy(); us[q] = val
            ((c1, a1), n1) = go(us)
            if c1 == c0:
                ch |= set(j for j in range(len(a0)) if a0[j] != a1[j])
        v.check('one independent draw per trajectory', len(ch) <= 1)

def ck_rs_runs(v): rejection_concrete(v, 'rs')
def ck_rsas_runs(v): rejection_concrete(v, 'rsas')

def ck_mcmc_runs(v):
    (N, D, M, P, traj, u, y, t) = setup(v)
    K = v.dim('K', 1, 4)
    ft = [S.step(v, 'f%d' % j, K, D) for j in range(v.choose('recorded future', [1, 2]))]
    for s in ft[1:]: s.ancestors = v.idx('fanc', K, K)
    m = RSModel(v, D, 0.0)
    pa = traj[P].pa; past = traj[:P]; pind = traj[P].ancestors
    find = v.idx('find', K, M)
    anc = v.idx('current', N, M)
    s = S.sig(u, y, t, P)
    L = density(v, m, pa, past, pind, ft, find, s)
    w = S.softmax(pa.w)
    R = v.choose('iterations', [0, 1, 2, 5])
    before = v.snap((traj, ft, find))
    def run():
        m.calls = []
        return sm.bsi_mcmc(m, pa, past, pind, ft, find, u, y, t, P, R, anc.copy())
    for c in [1e-6, 0.03, 0.15, 0.3, 0.5, 0.7, 0.9, 0.97, 1.0 - 1e-9]:
        (res, draws) = constant(v, run, c)
        v.eq('one index for every trajectory', res.shape, (M,))
        if R > 0:
            v.eq('starts from the current indices', m.calls[0][0], anc)
            v.eq('number of proposals', len(m.calls), R + 1)
        ind = anc.copy()
        ok = True
        for (i, f, lp) in m.calls[1:]:
            v.eq('trajectories', f, find)
            for j in range(M):
                d = L[j, i[j]] - L[j, ind[j]]
                ok = ok and abs(np.log(c) - d) > 1e-9
                if np.log(c) < d:
                    ind[j] = i[j]
        if ok:
            v.eq('resulting indices', res, ind)
    v.unchanged('frame', (traj, ft, find), before)
    if R > 0:
        last = []
        def out():
            return ([list(c) for (c, f, lp) in m.calls], list(last[0]))
        def go():
            last[:] = [run()]
        one_draw_each(v, go, out, M)
        first = np.zeros(N)
        K = 200
        for k in range(K):
            run()
            first[m.calls[1][0][0]] += 1.0 / K
        v.check('the first trajectory is offered particles by their weights', np.max(np.abs(first - w)) < 0.2)
        offered(v, run, m, N, M, w, 1)


# ------------------------------------------------------------------ loops by induction (symbolic); concretely a few runs
class RejLoop(object):
    """loop contract of the rejection samplers: `todo` holds the distinct trajectories still open, the others have their index in `res`"""
    calls = 'logp_xnext_full'
    def __init__(self, v, M, R, w, dens, maxpdf):
        self.v = v; self.M = M; self.R = R; self.w = w; self.dens = dens; self.maxpdf = maxpdf
        self.todo = None; self.res = None
    def entry(self, loc):
        self.ntodo = the(self.v, loc, 'iota'); self.nres = the(self.v, loc, 'fresh')
        self.v.eq('every trajectory is open at first', loc[self.ntodo], np.arange(self.M))
        if self.R is not None:
            self.v.eq('number of rounds', loc['#n'], self.R)
    def havoc(self, loc):
        v = self.v
        self.n = v.dim('open', 0)
        self.todo = v.subset('todo', self.n, self.M)
        self.res = v.ints('res', self.M)
        loc[self.nres][:] = self.res
        h = {self.ntodo: self.todo.copy()}
        if '#number' in loc:
            for k in loc['#number']:        # filter for the acceptance rate: only decides when to stop
                h[k] = v.num('num_' + k)
        return h
    def modifies(self, loc): return [loc[self.nres]]
    def round(self):
        """the round just executed: (accepted, still open)"""
        v = self.v
        (ws, n, s) = v.sampled(-1)
        v.eq('weights of the candidates', ws, self.w)
        v.eq('one candidate for every open trajectory', n, self.n)
        cand = s[v.perm(-1)]
        acc = np.log(v.unif(-1)) < self.dens(cand, self.todo) - self.maxpdf
        e = self.res.copy()
        e[self.todo[acc]] = cand[acc]
        return (e, self.todo[~acc])
    def back(self, loc):
        (e, left) = self.round()
        v = self.v
        v.eq('rejected trajectories stay open', loc[self.ntodo], left)
        v.eq('indices after a round', loc[self.nres], e)
        v.eq('draws of one round', [v.drawn('samp'), v.drawn('perm'), v.drawn('unif')], [1, 1, 1])

def rejection(v, kind):
    N = v.dim('N', 2, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3); K = v.dim('K', 1, 3)
    P = v.choose('earlier steps', S.longer(v, [0, 1, 2], [5])); F = v.choose('later steps', S.longer(v, [1, 2], [4]))
    (traj, u, y, t) = S.history(v, N, D, P + F + 1)
    ft = [S.step(v, 'f%d' % j, K, D) for j in range(F)]
    for s in ft[1:]: s.ancestors = v.idx('fanc', K, K)
    pa = traj[P].pa; past = traj[:P]; pind = traj[P].ancestors
    find = v.idx('find', K, M)
    m = S.FullModel(v, D)
    sg = S.sig(u, y, t, P)
    def dens(cand, todo):
        return v.rowuf('lpf', len(cand), (), [pa.part[cand]] + S.past(past, pind[cand]) + S.future(ft, find[todo]), sg)
    maxpdf = v.num('maxpdf')
    R = v.dim('R', 0, 2) if kind == 'rs' else None
    q = [v.posnum(x) for x in ['x1', 'P1', 'sv', 'sw', 'ratio']] if kind == 'rsas' else []
    loop = RejLoop(v, M, R, S.softmax(pa.w), dens, maxpdf)
    full = []
    def exact(model, pa_, ptraj, pind_, future_trajs, find_, ut, yt, tt, cur_ind):
        r = v.fresh_idx(N, len(find_))
        full.append(([model, pa_, cur_ind], find_, r))
        v.same('model given to the exact sampler', model, m)
        v.same('particles given to the exact sampler', pa_, pa)
        v.eq('arguments of the exact sampler', [S.past(ptraj, pind_), S.future(future_trajs, find_), rest3(ut, yt, tt, cur_ind)],
             [S.past(past, pind), S.future(ft, find_), rest3(u, y, t, P)])
        return r.copy()
    v.sampling()
    v.replace('pyparticleest.smoother.bsi_full', exact)
    name = 'bsi_rs' if kind == 'rs' else 'bsi_rsas'
    v.cut('pyparticleest.smoother.' + name, loop)
    s = v.snap((traj, ft, pind, find, u, y))
    if kind == 'rs':
        r = sm.bsi_rs(m, pa, past, pind, ft, find, u, y, t, P, maxpdf, R)
    else:
        r = sm.bsi_rsas(m, pa, past, pind, ft, find, u, y, t, P, maxpdf, q[0], q[1], q[2], q[3], q[4])
    v.unchanged('frame', (traj, ft, pind, find, u, y), s)
    v.eq('one index for every trajectory', r.shape, (M,))
    if not v.symbolic:
        v.check('valid indices', np.all((r >= 0) & (r < N)))
        return
    if loop.res is None:
        v.unsupported('loop contract: no such loop')
    e = loop.res.copy(); left = loop.todo
    if v.drawn('perm') > 0:
        (e, left) = loop.round()
    if len(full) > 0:
        v.eq('trajectories given to the exact sampler', full[0][1], find[left])
        e[left] = full[0][2]
        v.eq('exact draws are made once', len(full), 1)
    else:
        v.eq('no trajectory is left', len(left), 0)
    v.eq('resulting indices', r, e)

def rest3(u, y, t, k): return (k, S.rest(u, k), S.rest(y, k), S.rest(t, k))

def ck_rs(v): rejection(v, 'rs')
def ck_rsas(v): rejection(v, 'rsas')

class MHLoop(object):
    """loop contract of the MCMC sampler: pcurr is the transition density of the current indices"""
    calls = 'logp_xnext_full'
    def __init__(self, v, M, N, R, w, anc, dens):
        self.v = v; self.M = M; self.N = N; self.R = R; self.w = w; self.anc = anc; self.dens = dens; self.ind = None
    def entry(self, loc):
        v = self.v
        self.nind = the(v, loc, 'index'); self.npc = the(v, loc, 'vector')
        v.eq('starts from the current indices', loc[self.nind], self.anc)
        v.eq('their transition density', loc[self.npc], self.dens(self.anc))
        v.eq('number of iterations', loc['#n'], self.R)
    def havoc(self, loc):
        self.ind = self.v.idx('ind', self.N, self.M)
        h = {}
        for (n, x) in [(self.nind, self.ind), (self.npc, self.dens(self.ind))]:
            if n in loc['#stores']:
                h[n] = x.copy()
            else:
                loc[n][:] = x
        return h
    def modifies(self, loc): return [loc[self.nind], loc[self.npc]]
    def back(self, loc):
        v = self.v
        (ws, n, s) = v.sampled(-1)
        v.eq('weights of the proposals', ws, self.w)
        v.eq('one proposal for every trajectory', n, self.M)
        prop = s[v.perm(-1)]
        (lp, lc) = (self.dens(prop), self.dens(self.ind))
        acc = np.log(v.unif(-1)) < np.minimum(lp - lc, 0)
        v.eq('accepted proposals replace the indices', loc[self.nind], np.where(acc, prop, self.ind))
        v.eq('density of the new indices', loc[self.npc], np.where(acc, lp, lc))
        v.eq('draws of one iteration', [v.drawn('samp'), v.drawn('perm'), v.drawn('unif')], [1, 1, 1])

def ck_mcmc(v):
    N = v.dim('N', 2, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3); K = v.dim('K', 1, 3)
    P = v.choose('earlier steps', S.longer(v, [0, 1, 2], [5])); F = v.choose('later steps', S.longer(v, [1, 2], [4]))
    (traj, u, y, t) = S.history(v, N, D, P + F + 1)
    ft = [S.step(v, 'f%d' % j, K, D) for j in range(F)]
    for s in ft[1:]: s.ancestors = v.idx('fanc', K, K)
    pa = traj[P].pa; past = traj[:P]; pind = traj[P].ancestors
    find = v.idx('find', K, M)
    anc = v.idx('current', N, M)
    m = S.FullModel(v, D)
    sg = S.sig(u, y, t, P)
    def dens(ind):
        return v.rowuf('lpf', M, (), [pa.part[ind]] + S.past(past, pind[ind]) + S.future(ft, find), sg)
    R = v.dim('R', 0, 2)
    loop = MHLoop(v, M, N, R, S.softmax(pa.w), anc, dens)
    v.sampling()
    v.cut('pyparticleest.smoother.bsi_mcmc', loop)
    s = v.snap((traj, ft, pind, find, u, y))
    r = sm.bsi_mcmc(m, pa, past, pind, ft, find, u, y, t, P, R, anc.copy())
    v.unchanged('frame', (traj, ft, pind, find, u, y), s)
    v.eq('one index for every trajectory', r.shape, (M,))
    if v.symbolic:
        if loop.ind is None:
            v.unsupported('loop contract: no such loop')
        v.eq('resulting indices', r, loop.ind)
    else:
        v.check('valid indices', np.all((r >= 0) & (r < N)))

# ------------------------------------------------------------------ use of the samplers by the smoother
class Recorder(object):
    """stands for a backward sampler: returns arbitrary indices and keeps what it was given"""
    def __init__(self, v, N, M):
        self.v = v; self.N = N; self.M = M; self.calls = []
    def sampler(self, model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, q):
        ind = self.v.idx('ind%d' % cur_ind, self.N, self.M)
        self.calls.append((model, pa, (S.past(ptraj, pind), len(ptraj)), (S.future(future_trajs, find), len(future_trajs)), find.copy(), rest3(ut, yt, tt, cur_ind), cur_ind, q, ind))
        return ind.copy()

def smoothing(v, method):
    (N, D, M, T, traj, u, y, t, pt) = c10.setup(v)
    m = pt.pf.model
    rec = Recorder(v, N, M)
    v.sampling()
    def rs(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, max_iter):
        return rec.sampler(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, {'maxpdf': maxpdf, 'max_iter': max_iter})
    def rsas(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, maxpdf, x1, P1, sv, sw, ratio):
        return rec.sampler(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind,
                           {'maxpdf': maxpdf, 'x1': x1, 'P1': P1, 'sv': sv, 'sw': sw, 'ratio': ratio})
    def mcmc(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, R, ancestors):
        return rec.sampler(model, pa, ptraj, pind, future_trajs, find, ut, yt, tt, cur_ind, {'R': R, 'ancestors': ancestors.copy()})
    v.patch(sm, 'bsi_' + method, {'rs': rs, 'rsas': rsas, 'mcmc': mcmc}[method])
    given = v.choose('options', ['default', 'given'])
    if method == 'rs':
        opts = {'R': v.choose('R', [0, 3])}
        names = ['maxpdf', 'max_iter']
    elif method == 'rsas':
        opts = {'x1': v.num('x1'), 'P1': v.num('P1'), 'sv': v.num('sv'), 'sw': v.num('sw'), 'ratio': v.num('ratio')}
        names = ['maxpdf', 'x1', 'P1', 'sv', 'sw', 'ratio']
    else:
        opts = {'R': v.choose('R', [0, 3])}
        names = ['R', 'ancestors']
    st = v.lowvar('final indices', lambda: restart(rec, pt, M, method, opts if given == 'given' else None),
                  S.softmax(traj[T - 1].pa.w), M, lambda st: st.traj[T - 1].pa.part[:, 0])
    c10.consistent(v, N, D, M, T, traj, u, y, t, st, 0)
    v.eq('every step but the last is sampled once', len(st.sampler_calls), T - 1)
    nxt = v.asidx(st.traj[T - 1].pa.part[:, 0])
    for i in range(T - 1):
        k = T - 2 - i
        (model, pa, p, f, find, rest, ix, kw, ind) = st.sampler_calls[i]
        v.eq('step sampled', ix, k)
        v.same('model', model, m)
        v.same('particles and weights', pa, traj[k].pa)
        v.eq('past', p, (S.past(traj[:k], traj[k].ancestors), k))
        v.eq('future', f, (S.future(st.traj[k + 1:], np.arange(M)), T - 1 - k))
        v.eq('trajectories', find, np.arange(M))
        v.eq('inputs, measurements, time stamps', rest, rest3(u[:T], y[:T], t[:T], k))
        v.eq('states come from the sampled indices', st.traj[k].pa.part[:, 0], ind)
        for n in names:
            if n == 'maxpdf':
                v.eq('bound of the transition density', kw[n], v.uf('lpm', (), traj[k].pa.part, S.past(traj[:k], traj[k].ancestors), S.rest(u[:T], 0), S.rest(y[:T], 0), S.rest(t[:T], 0), k))
            elif n == 'ancestors':
                v.eq('current indices', kw[n], traj[k + 1].ancestors[nxt])
            elif given == 'given':
                v.eq('option ' + n, kw[n], opts['R' if n == 'max_iter' else n])
            elif n == 'max_iter':
                v.eq('default number of rounds', kw[n], int(0.1 * N))
            elif n == 'R':
                v.eq('default number of iterations', kw[n], 30)
            else:
                v.eq('default ' + n, kw[n], 1.0)
        nxt = ind

def restart(rec, pt, M, method, opts):
    rec.calls = []
    st = pt.perform_smoothing(M, method, opts)
    st.sampler_calls = rec.calls
    return st

def ck_smoothing_rs(v): smoothing(v, 'rs')
def ck_smoothing_rsas(v): smoothing(v, 'rsas')
def ck_smoothing_mcmc(v): smoothing(v, 'mcmc')

def ck_smoothing_any(v):
    """any number of time steps"""
    method = v.choose('method', ['rs', 'rsas', 'mcmc'])
    if v.symbolic:
        c10.any_length(v, method)
    else:
        c10.consistent(v, *c10.longer(v, method))

class Bounded(object):
    """arbitrary bound of the transition density, depending on exactly what it is given"""
    def __init__(self, v, name=''): self.v = v; self.name = 'lpm' + name
    def logp_xnext_max_full(self, part, past_trajs, pind, uvec, yvec, tvec, cur_ind):
        return self.v.uf(self.name, (), part, pind, len(past_trajs), uvec, yvec, tvec, cur_ind)

def ck_options_any(v):
    """bounds and default options handed to the smoother, any number of time steps"""
    method = v.choose('method', ['rs', 'rsas', 'mcmc', 'full'])
    given = v.choose('options', ['default', 'one given'])
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); T = v.dim('T', 1, 8); M = v.dim('M', 1, 3)
    m = Bounded(v)
    f = S.Filtered(v, T, N, D, m)
    pt = pf.ParticleTrajectory(S.PFModel(v, D), N)
    pt.pf.model = m
    pt.traj = f if v.symbolic else [f[k] for k in range(T)]
    (pt.uvec, pt.yvec, pt.tvec) = (f.uvec, f.yvec, f.tvec)
    got = []
    def smoother(pt, M=1, method='full', options=None):
        got.append((pt, M, method, options))
        return 'smoothed'
    v.patch(sm, 'SmoothTrajectory', smoother)
    extra = {'R': 7, 'ratio': 0.25}
    if v.choose('smoothed before', [False, True]):
        pt.pf.model = Bounded(v, 'before')
        mb = v.choose('method before', ['rs', 'rsas', 'mcmc'])
        pt.perform_smoothing(M, mb, extra if v.choose('options before', ['same', 'other']) == 'same' else {'R': 9, 'x1': 0.5, 'ratio': 0.5})
        pt.pf.model = m
        got.pop()
    r = pt.perform_smoothing(M, method, extra if given == 'one given' else None)
    v.eq('result', r, 'smoothed')
    v.eq('smoothed once', len(got), 1)
    (p, n, me, o) = got[0]
    v.same('trajectory', p, pt)
    v.eq('number and method', (n, me), (M, method))
    d = {'rs': {}, 'rsas': {'x1': 1.0, 'P1': 1.0, 'sv': 1.0, 'sw': 1.0, 'ratio': 1.0}, 'mcmc': {'R': 30}, 'full': {}}[method]
    if given == 'one given': d.update(extra)
    for k in d: v.eq('option ' + k, o[k], d[k])
    if method in ('rs', 'rsas') and T > 1:
        k = v.index('step', T - 1)
        v.eq('bound at a step', o['maxpdf'][k], v.uf('lpm', (), f.X[k], f.A[k], k, f.uvec, f.yvec, f.tvec, k))

CONF = {"budget": 120}
SYM = {'ck_rs_runs': 'bounded', 'ck_rsas_runs': 'bounded', 'ck_mcmc_runs': 'bounded'}
CONTRACTS = ['ck_rs', 'ck_rsas', 'ck_mcmc', 'ck_smoothing_rs', 'ck_smoothing_rsas', 'ck_smoothing_mcmc', 'ck_smoothing_any', 'ck_options_any', 'ck_rs_runs', 'ck_rsas_runs', 'ck_mcmc_runs']
