"""P12: Metropolis-Hastings smoothers use the correct acceptance ratio."""
import numpy as np
import pyparticleest.filter as pf
import pyparticleest.smoother as sm
import contracts.stubs as S
import contracts.c10 as c10
from contracts.loops import the

def ck_mc_step(v):
    """one move, at the first, an inner and the last time step"""
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3); K = v.dim('K', 1, 3)
    T = v.choose('steps', S.longer(v, [3], [6]))
    k = v.choose('step', list(range(T)))
    reduced = v.choose('proposal from the dynamics', [False, True])
    missing = v.choose('measurement missing', [False, True])
    (traj, u, y, t) = S.history(v, N, D, T)
    if missing:
        y[k] = None
    ft = None
    find = v.idx('find', K, M)
    if k < T - 1:
        ft = [S.step(v, 'f%d' % j, K, D) for j in range(T - 1 - k)]
        for s in ft: s.ancestors = v.idx('fanc', K, K)
        if reduced and k == 0:
            v.assume(K == M)
    past = None; pp = None; pc = None
    if k > 0:
        past = traj[:k]
        pp = v.idx('anc_prop', N, M); pc = v.idx('anc_curr', N, M)
    part = v.arr('cur', M, D)
    m = S.MHModel(v, D)
    ((x, acc), draws) = v.uniforms(lambda: sm.mc_step(m, part, past, pp, pc, ft, find, u, y, t, k, reduced))
    v.eq('one draw per trajectory', [len(draws), len(draws[0])], [1, M])
    (xs, accs) = S.mh_step(v, D, part, past, pp, pc, ft, find, u, y, t, k, reduced, draws[0])
    v.eq('accepted', 1.0 * acc, 1.0 * accs)
    v.eq('resulting state', x, xs)

def check_smoothed(v, label, call, x, ptraj, anc, ft, find, s, step):
    v.eq(label + ': state', call[1], [x] + S.past(ptraj, anc) + S.future(ft, find))
    v.eq(label + ': index, inputs, measurements, time stamps', call[2], s)
    v.eq(label + ': recorded state', step.pa.part, call[3])
    v.eq(label + ': recorded ancestors', step.ancestors, find)

def setup(v, Ts):
    N = v.dim('N', 1, 4); D = v.dim('D', 1, 2); M = v.dim('M', 1, 3)
    T = v.choose('steps recorded', Ts)
    (traj, u, y, t) = S.history(v, N, D, T)
    k = v.choose('measurement missing at step', ['none', 0, T - 1])
    if k != 'none':
        y[k] = None
    m = S.LoggedModel(v, D)
    return (N, D, M, T, traj, u[:T], y[:T], t[:T], m, S.recorded(v, m, traj, u, y, t))

def mhips(v, reduced):
    """every pass moves all time steps, last to first, conditioning on the already moved future and the not yet moved past"""
    (N, D, M, T, traj, u, y, t, m, pt) = setup(v, S.longer(v, [2, 3], [6]))
    R = v.choose('passes', [1, 2] if v.symbolic else [1, 2, 10])
    opts = {} if R == 10 else {'R': R}
    log = []
    def hook(st):
        log.append([s for s in st.traj])
        return st.traj
    m.pre_mhips_pass = hook
    v.sampling()
    mv = S.Moves(v, D, True)
    (st, draws) = v.uniforms(lambda: sm.SmoothTrajectory(pt, M, 'mhips_reduced' if reduced else 'mhips', opts))
    v.eq('number of passes', len(log), R)
    log.append(st.traj)
    f = np.arange(M)
    for r in range(R):
        old = log[r]; new = log[r + 1]
        v.eq('number of steps', len(new), T)
        for i in range(T):
            k = T - 1 - i
            ptraj = old[:k] if k > 0 else None
            p = f if k > 0 else None
            ft = new[k + 1:] if k < T - 1 else None
            draw = None if v.symbolic else draws[len(draws) - T * R + r * T + i]
            (x, acc) = mv.move(old[k].pa.part, ptraj, p, p, ft, f, u, y, t, k, reduced, draw)
            check_smoothed(v, 'step %d' % k, m.calls_at(k)[r + 1], x, ptraj, p, ft, f, S.sig(u, y, t, k), new[k])

def ck_mhips(v): mhips(v, False)
def ck_mhips_reduced(v): mhips(v, True)

def sysidx(v, w, n, i, draw):
    """systematic sampling from the weights w (the contract of `sample`, P04); the i-th time it is used"""
    p = S.softmax(w)
    if v.symbolic:
        (ws, ns, ind) = v.sampled(i)
        v.eq('weights given to sample', ws, p)
        v.eq('count given to sample', ns, n)
        return ind
    c = np.cumsum(p)
    q = (np.arange(n) + draw) / (1.0 * n)
    return np.sum(c.reshape((1, -1)) < q.reshape((-1, 1)), axis=1)

def ck_mhbp(v):
    (N, D, M, T, traj, u, y, t, m, pt) = setup(v, S.longer(v, [1, 2, 3], [6]))
    R = v.choose('moves per step', [1, 2] if v.symbolic else [1, 2, 10])
    opts = {} if R == 10 else {'R': R}
    mv = S.Moves(v, D, True)
    v.sampling()
    (st, draws) = v.uniforms(lambda: sm.SmoothTrajectory(pt, M, 'mhbp', opts))
    f = np.arange(M)
    ind = sysidx(v, traj[T - 1].pa.w, M, 0, None if v.symbolic else draws[0])
    n = 1; ns = 1
    for i in range(T):
        k = T - 1 - i
        ft = st.traj[k + 1:] if k < T - 1 else None
        x = traj[k].pa.part[ind]
        anc = traj[k].ancestors[ind]
        ptraj = traj[:k] if k > 0 else None
        for r in range(R):
            prop = None; cur = None
            if k > 0:
                prop = sysidx(v, traj[k - 1].pa.w, M, ns, None if v.symbolic else draws[n])
                cur = anc
                n = n + 1
                ns = ns + 1
            draw = None
            if not v.symbolic:
                draw = draws[n]
                n = n + 1
            (x, acc) = mv.move(x, ptraj, prop, cur, ft, f, u, y, t, k, False, draw)
            if k > 0:
                anc = np.where(acc, prop, anc)
        check_smoothed(v, 'step %d' % k, m.calls_at(k)[0], x, ptraj, anc, ft, f, S.sig(u, y, t, k), st.traj[k])
        ind = anc

# ------------------------------------------------------------------ any number of time steps
class AnyPass(c10.StepLoop):
    """a pass over the time steps, backwards: what is given to the moves and to the model at an arbitrary step, and what is kept"""
    def __init__(self, v, pt, M, reduced, R):
        c10.StepLoop.__init__(self, v, pt, M, 'moves', None)
        self.reduced = reduced; self.moves = []; self.R = R
        v.replace('pyparticleest.smoother.mc_step', self.move)

    def move(self, model, part, ptraj, pind_prop, pind_curr, future_trajs, find, ut, yt, tt, cur_ind, reduced):
        r = (self.v.fresh(len(part), part.shape[1]), self.v.fresh(len(part)) > 0)
        copies = [None if x is None else x.copy() for x in [part, pind_prop, pind_curr]]
        self.moves.append((model, copies[0], ptraj, copies[1], copies[2], future_trajs, find, ut, yt, tt, cur_ind, reduced, r))
        return (r[0].copy(), r[1].copy())

    def moved(self, what, call, k, part, pp, pc, last):
        """one move at step k"""
        v = self.v
        (model, x, ptraj, p, c, ft, find, ut, yt, tt, ix, reduced, r) = call
        v.same(what + ': model', model, self.m)
        v.eq(what + ': states', x, part)
        self.history(what, ptraj, ft, k, last)
        if pp is not None:
            v.eq(what + ': proposed ancestors', p, pp)
            v.eq(what + ': current ancestors', c, pc)
        if not last: v.eq(what + ': trajectories', find, np.arange(self.M))
        self.data(what, ut, yt, tt, ix, k)
        v.check(what + ': kind', reduced == self.reduced)
        return r

    def history(self, what, ptraj, ft, k, last):
        v = self.v; pt = self.pt
        if k == 0:
            v.check(what + ': no past', ptraj is None)
        else:
            v.same(what + ': past', ptraj.owner, pt)
            v.eq(what + ': past', [ptraj.lo, ptraj.hi], [0, k])
        if last:
            v.check(what + ': no future', ft is None)
        else:
            v.same(what + ': future', ft.owner, self.traj)
            v.eq(what + ': future', [ft.lo, ft.hi], [k + 1, pt.T])

    def kept(self, what, call, k, part, anc, last, step):
        """the state drawn at step k and the step written"""
        v = self.v
        (x, ptraj, a, ft, find, ut, yt, tt, ix, r) = call
        v.eq(what + ': states', x, part)
        if k == 0 and ptraj is not None:
            v.eq(what + ': no past', ptraj.hi, 0)
            ptraj = None
        self.history(what, ptraj, ft, k, last)
        v.eq(what + ': ancestors', a, anc)
        if not last: v.eq(what + ': trajectories', find, np.arange(self.M))
        self.data(what, ut, yt, tt, ix, k)
        v.eq(what + ': state written', step.pa.part, r)
        v.eq(what + ': ancestors written', step.ancestors, np.arange(self.M))

    def forget(self, log):
        while len(log) > 0: log.pop()

    def modifies(self, loc): return [self.traj, self.traj.log, self.m.log, self.moves]

    def own(self, what, k, last, step):
        """a step of the pass over smoothed trajectories: one move, every trajectory with its own past and future"""
        v = self.v; f = np.arange(self.M)
        v.eq('one move', len(self.moves), 1)
        v.eq('one state drawn', len(self.m.log), 1)
        (x, acc) = self.moved('move, ' + what, self.moves[0], k, self.pt.X[k], None if k == 0 else f, f, last)
        self.kept('state, ' + what, self.m.log[0], k, x, f, last, step)

    def entry(self, loc):
        pt = self.pt
        tr = loc[the(self.v, loc, 'objects')]
        self.v.eq('length of the trajectory', len(tr), pt.T)
        self.own('last step', pt.T - 1, True, tr[pt.T - 1])
        self.v.eq('number of steps between', loc['#n'], pt.T - 2)

    def havoc(self, loc):
        self.traj = S.Assembled(self.v, self.pt.T)
        self.forget(self.m.log); self.forget(self.moves)
        return {the(self.v, loc, 'objects'): self.traj}

    def back(self, loc):
        k = self.pt.T - 2 - loc['#i']
        self.v.eq('one step written', len(self.traj.log), 1)
        (kk, step) = self.traj.log[0]
        self.v.eq('step written', kk, k)
        self.own('step', k, False, step)

class BackwardPass(AnyPass):
    """the backward proposer: R moves (MoveLoop) of the ancestors at every step, the accepted ones are the particles of the step before"""
    def entry(self, loc):
        v = self.v; pt = self.pt
        v.eq('one draw of final indices', len(self.final), 1)
        (w, n, ind) = self.final[0]
        v.eq('weights of the final indices', w, S.softmax(pt.W[pt.T - 1]))
        v.eq('number of final indices', n, self.M)
        v.eq('length of the trajectory', len(loc[the(v, loc, 'objects')]), pt.T)
        v.eq('number of steps', loc['#n'], pt.T)
        v.eq('particles of the last step', loc[the(v, loc, 'index')], ind)
        v.eq('nothing moved yet', [len(self.moves), len(self.m.log)], [0, 0])
    def havoc(self, loc):
        self.traj = S.Assembled(self.v, self.pt.T)
        self.forget(self.final)
        self.ind = self.v.fresh_idx(self.pt.X.shape[1], self.M)
        self.name = the(self.v, loc, 'index')
        self.i = loc['#i']
        return {the(self.v, loc, 'objects'): self.traj, self.name: self.ind.copy()}
    def modifies(self, loc): return [self.traj, self.traj.log, self.m.log, self.moves, self.final, self.inner]
    def back(self, loc):
        v = self.v; pt = self.pt
        k = pt.T - 1 - loc['#i']
        last = loc['#i'] == 0
        if self.inner.x is None: v.unsupported('loop contract: no loop over the moves')
        v.eq('moves', [len(self.moves), len(self.final)], [0, 0])
        v.eq('one state drawn', len(self.m.log), 1)
        v.eq('one step written', len(self.traj.log), 1)
        (kk, step) = self.traj.log[0]
        v.eq('step written', kk, k)
        self.kept('state', self.m.log[0], k, self.inner.x, self.inner.anc, last, step)
        v.eq('particles of the step before', loc[self.name], self.inner.anc)

class MoveLoop(object):
    """the moves of one step of the backward proposer: states and ancestors are arbitrary, a move proposes fresh ancestors and keeps the
    accepted ones"""
    calls = 'mc_step'
    def __init__(self, v, outer):
        self.v = v; self.o = outer; self.x = None
    def entry(self, loc):
        v = self.v; o = self.o; pt = o.pt
        if '#n' not in loc: v.unsupported('loop contract: not a counted loop')
        k = pt.T - 1 - o.i
        self.na = the(v, loc, 'index'); self.nx = the(v, loc, 'matrix')
        v.eq('number of moves', loc['#n'], o.R)
        v.eq('moves start from the filtered states', loc[self.nx], pt.X[k][o.ind])
        if k > 0: v.eq('moves start from the recorded ancestors', loc[self.na], pt.A[k][o.ind])
        v.eq('nothing moved yet', [len(o.moves), len(o.final)], [0, 0])
    def havoc(self, loc):
        v = self.v; o = self.o
        self.x = v.fresh(o.M, o.pt.X.shape[2])
        self.anc = v.fresh_idx(o.pt.X.shape[1], o.M)
        b = loc[self.na]
        b[...] = self.anc
        h = {self.na: b, self.nx: self.x.copy()}
        self.none = list(loc['#none1']) if '#none1' in loc else []
        for nm in self.none: h[nm] = None
        return h
    def modifies(self, loc): return [loc[self.na], self.o.m.log, self.o.moves, self.o.final]
    def back(self, loc):
        v = self.v; o = self.o; pt = o.pt
        k = pt.T - 1 - o.i
        last = o.i == 0
        v.eq('one move', len(o.moves), 1)
        v.eq('no state drawn', len(o.m.log), 0)
        if k == 0:
            v.eq('no ancestors proposed', len(o.final), 0)
            (x, acc) = o.moved('move', o.moves[0], k, self.x, None, None, last)
            anc = self.anc
        else:
            v.eq('ancestors proposed', len(o.final), 1)
            (w, n, prop) = o.final[0]
            v.eq('weights of the proposed ancestors', w, S.softmax(pt.W[k - 1]))
            v.eq('number of proposed ancestors', n, o.M)
            (x, acc) = o.moved('move', o.moves[0], k, self.x, prop, self.anc, last)
            anc = np.where(acc, prop, self.anc)
        v.check('nothing proposed', all([loc[nm] is None for nm in self.none]))
        v.eq('states for the next move', loc[self.nx], x)
        v.eq('ancestors for the next move', loc[self.na], anc)

def ck_mhips_any(v):
    """any number of time steps"""
    reduced = v.choose('proposal from the dynamics', [False, True])
    if not v.symbolic: return mhips(v, reduced)
    (N, D, M) = (v.dim('N', 1, 4), v.dim('D', 1, 2), v.dim('M', 1, 3))
    T = v.dim('T', 2, 12)
    m = c10.AnyModel(v, D)
    st = S.smoothed_object(v, D)
    st.model = m; st.M = M
    pt = S.Filtered(v, T, M, D, m)
    (st.traj, st.u, st.y, st.t) = (pt, pt.uvec, pt.yvec, pt.tvec)
    loop = AnyPass(v, pt, M, reduced, 1)
    v.cut('pyparticleest.smoother.SmoothTrajectory.perform_mhips_pass', loop)
    r = st.perform_mhips_pass(None, reduced)
    if loop.traj is None:
        v.unsupported('loop contract: no such loop')
    v.same('the trajectory assembled', r, loop.traj)
    v.same('the trajectory it starts from', st.traj, pt)
    v.eq('one step written after the loop', len(loop.traj.log), 1)
    (kk, step) = loop.traj.log[0]
    v.eq('first step', kk, 0)
    loop.own('first step', 0, False, step)

def ck_mhbp_any(v):
    """any number of time steps and of moves per step"""
    if not v.symbolic: return ck_mhbp(v)
    (N, D, M) = (v.dim('N', 1, 4), v.dim('D', 1, 2), v.dim('M', 1, 3))
    T = v.dim('T', 1, 12)
    R = v.dim('R', 1, 4)
    m = c10.AnyModel(v, D)
    pt = S.Filtered(v, T, N, D, m)
    loop = BackwardPass(v, pt, M, False, R)
    loop.inner = MoveLoop(v, loop)
    def draw(w, n):
        ind = v.fresh_idx(len(w), n)
        loop.final.append((w.copy(), n, ind))
        return ind.copy()
    v.replace('pyparticleest.filter.sample', draw)
    v.cut('pyparticleest.smoother.SmoothTrajectory.perform_mhbp', loop)
    v.cut('pyparticleest.smoother.SmoothTrajectory.perform_mhbp#inner', loop.inner)
    st = sm.SmoothTrajectory(pt, M, 'mhbp', {'R': R})
    if loop.traj is None:
        v.unsupported('loop contract: no such loop')
    v.same('the trajectory assembled', st.traj, loop.traj)

class Trajectory(object):
    """some smoothed trajectory"""
    def __init__(self, v): self.v = v

class PassLoop(object):
    """the passes of the Metropolis-Hastings smoother: each starts from what the one before left"""
    calls = 'perform_mhips_pass'
    def __init__(self, v, R, reduced, opts):
        self.v = v; self.R = R; self.reduced = reduced; self.opts = opts
        self.st = None; self.start = None; self.arb = None; self.log = []
    def fields(self): return [self.st.model, self.st.u, self.st.y, self.st.t]
    def entry(self, loc):
        v = self.v
        if '#n' not in loc: v.unsupported('loop contract: not a counted loop')
        v.eq('number of passes', loc['#n'], self.R)
        v.same('starts from the filtered trajectories', self.st.traj, self.start)
        v.eq('no pass yet', len(self.log), 1)
        v.same('the filtered trajectories of the history', self.log[0][1], self.pt)
        v.eq('number of trajectories', self.log[0][2], self.st.M)
        self.before = self.fields(); self.M = self.st.M
    def havoc(self, loc):
        self.arb = Trajectory(self.v)
        self.st.traj = self.arb
        while len(self.log) > 0: self.log.pop()
        return {}
    def modifies(self, loc): return [self.st, self.log]
    def passed(self, log, given):
        """one pass over given; the trajectory it gives"""
        v = self.v
        if self.hook:
            (what, traj, x, r) = log[0]
            v.check('trajectories prepared before the pass', what == 'before')
            v.same('trajectories prepared before the pass', traj, given)
            given = r
        (what, traj, x, r) = log[len(log) - 1]
        v.check('a pass', what == 'pass')
        v.same('the pass moves the current trajectories', traj, given)
        v.check('proposal of the pass', x == self.reduced)
        return r
    def back(self, loc):
        v = self.v
        v.eq('one pass', len(self.log), 2 if self.hook else 1)
        r = self.passed(self.log, self.arb)
        v.same('the next pass starts from what this one gives', self.st.traj, r)
        for (a, b) in zip(self.fields(), self.before): v.same('model, inputs, measurements and times', a, b)
        v.check('number of trajectories', self.st.M == self.M)

def ck_passes_any(v):
    """any number of passes"""
    (N, D, M) = (v.dim('N', 1, 4), v.dim('D', 1, 2), v.dim('M', 1, 3))
    T = v.dim('T', 2, 6) if v.symbolic else v.choose('steps', [2, 5])
    R = v.dim('R', 1, 8)
    reduced = v.choose('proposal from the dynamics', [False, True])
    m = S.LoggedModel(v, D) if not v.symbolic else c10.AnyModel(v, D)
    if v.symbolic: pt = S.Filtered(v, T, N, D, m)
    else:
        (traj, u, y, t) = S.history(v, N, D, T)
        pt = S.recorded(v, m, traj, u[:T], y[:T], t[:T])
    loop = PassLoop(v, R, reduced, {'R': R})
    loop.pt = pt
    loop.hook = v.choose('model prepares each pass', [False, True])
    after = v.choose('model acts after smoothing', [False, True])
    def ancestors(self, pt, M):
        loop.st = self; loop.start = Trajectory(v)
        loop.log.append(('ancestors', pt, M, loop.start))
        return loop.start
    def onepass(self, options, reduced=False):
        r = Trajectory(v)
        loop.log.append(('pass', self.traj, reduced, r))
        return r
    def before(st):
        r = Trajectory(v)
        loop.log.append(('before', st.traj, None, r))
        return r
    def post(st):
        r = Trajectory(v)
        loop.log.append(('after', st.traj, None, r))
        return r
    v.patch(sm.SmoothTrajectory, 'perform_ancestors_int', ancestors)
    v.patch(sm.SmoothTrajectory, 'perform_mhips_pass', onepass)
    if loop.hook: m.pre_mhips_pass = before
    if after: m.post_smoothing = post
    v.cut('pyparticleest.smoother.SmoothTrajectory.__init__', loop)
    st = sm.SmoothTrajectory(pt, M, 'mhips_reduced' if reduced else 'mhips', {'R': R})
    v.check('is the object', loop.st is st)
    log = loop.log
    if v.symbolic: last = loop.arb
    else:
        v.check('the filtered trajectories of the history', log[0][1] is pt and log[0][2] == M)
        v.eq('number of passes', len(log), 1 + R * (2 if loop.hook else 1) + (1 if after else 0))
        last = loop.start; k = 2 if loop.hook else 1
        for r in range(R): last = loop.passed(log[1 + r * k:1 + (r + 1) * k], last)
    if after:
        v.same('smoothed trajectories given to the model', log[len(log) - 1][1], last)
        last = log[len(log) - 1][3]
    v.same('smoothed trajectories', st.traj, last)

CONTRACTS = ['ck_mc_step', 'ck_mhips', 'ck_mhips_reduced', 'ck_mhbp', 'ck_mhips_any', 'ck_mhbp_any', 'ck_passes_any']
