"""Shared by P16, P17, P18: smoothing of the linear states along given nonlinear trajectories (RBPSBase)."""
import numpy as np
import pyparticleest.models.rbpf as rbpf
from contracts.stubs import Step, longer, Assembled, View
from contracts.loops import the

class Given(rbpf.RBPSBase):
    """arbitrary measurement updates, conditioning on the next nonlinear state, and conditional linear dynamics"""
    def __init__(self, v, lxi, lz):
        self.v = v
        self.lxi = lxi
        rbpf.RBPSBase.__init__(self, lz)

    def moments(self, name, particles, rows, a, b):
        N = len(particles); lz = self.kf.lz
        z = self.v.rowuf(name + 'z', N, (lz, 1), rows, a, b); P = self.v.rowuf(name + 'P', N, (lz, lz), rows, a, b)
        self.set_states(particles, particles[:, :self.lxi], z, P)

    def lead(self, particles):
        return particles[:, :self.lxi + self.kf.lz + self.kf.lz ** 2].copy()

    def measure(self, particles, y, t):
        rows = [self.lead(particles)]
        self.moments('meas', particles, rows, y, t)
        return self.v.rowuf('g', len(particles), (), rows, y, t)

    def meas_xi_next(self, particles, xi_next, u, t):
        self.moments('xi', particles, [self.lead(particles), xi_next.reshape((len(particles), self.lxi))], u, t)

    def calc_cond_dynamics(self, particles, xi_next, u, t):
        N = len(particles); lz = self.kf.lz
        rows = [particles[:, :self.lxi].copy(), xi_next.reshape((N, self.lxi))]
        return (self.v.rowuf('A', N, (lz, lz), rows, u, t), self.v.rowuf('f', N, (lz, 1), rows, u, t), self.v.rowuf('Q', N, (lz, lz), rows, u, t))

    def get_rb_initial(self, xi):
        N = len(xi); lz = self.kf.lz; rows = [xi.reshape((N, self.lxi))]
        return (self.v.rowuf('z0', N, (lz, 1), rows), self.v.rowuf('P0', N, (lz, lz), rows))

    def create_initial_estimate(self, N): return None

class Smoothed(object):
    """what post-processing receives"""
    def __init__(self, traj, u, y, t):
        self.traj = traj; self.u = u; self.y = y; self.t = t

def trajectories(v, M, cols, T, ny, measured=['yes', 'no']):
    traj = []; u = []; y = []; t = []
    for k in range(T):
        traj.append(Step(v.arr('traj%d' % k, M, cols), v.idx('anc%d' % k, M, M)))
        u.append(v.tag('u%d' % k)); t.append(v.tag('t%d' % k))
        y.append(v.arr('y%d' % k, ny, 1) if v.choose('measured at %d' % k, measured) == 'yes' else None)
    return Smoothed(traj, u, y, t)

def filtered(m, st, lxi, lz):
    """specification of the forward pass: particles of the filter along the given trajectories, using the model's own methods"""
    M = len(st.traj[0].pa.part); T = len(st.traj)
    out = []
    p = np.zeros((M, lxi + lz + lz * lz))
    xi = st.traj[0].pa.part[:, :lxi]
    (z, P) = m.get_rb_initial(xi.reshape((M, lxi, 1)))
    m.set_states(p, xi, z, P)
    for k in range(T):
        if st.y[k] is not None: m.measure(p, st.y[k], st.t[k])
        out.append(p.copy())
        if k + 1 < T:
            xn = st.traj[k + 1].pa.part[:, :lxi].copy()
            m.meas_xi_next(p, xn, st.u[k], st.t[k])
            (A, f, Q) = m.calc_cond_dynamics(p, xn, st.u[k], st.t[k])
            (x, z, P) = m.get_states(p)
            zn = np.zeros((M, lz, 1)); Pn = np.zeros((M, lz, lz))
            for j in range(M):
                zn[j] = A[j].dot(z[j]) + f[j]
                Pn[j] = A[j].dot(P[j]).dot(A[j].T) + Q[j]
            m.set_states(p, xn, zn, Pn)
    return out

def setup(v, light=False):
    M = v.dim('M'); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 2)
    T = v.choose('T', longer(v, [1, 2, 3], [6]))
    light = light and v.symbolic and T == 3      # the measured steps are those of T = 1, 2 and of ck_forward
    extra = v.choose('extra', ['none'] if light else ['none', 'cross covariance'])
    cols = lxi + lz + lz * lz + (lz * lz if extra != 'none' else 0)
    m = Given(v, lxi, lz)
    st = trajectories(v, M, cols, T, ny, ['no'] if light else ['yes', 'no'])
    return (m, st, M, lxi, lz, T)

def ck_forward(v):
    """the forward pass gives each trajectory the filter moments along its own nonlinear path"""
    (m, st, M, lxi, lz, T) = setup(v)
    s = v.snap(st)
    r = m.pre_mhips_pass(st)
    e = filtered(m, st, lxi, lz)
    v.eq('length', len(r), T)
    for k in range(T):
        v.eq('particles at step %d' % k, r[k].pa.part, e[k])
        v.eq('recorded ancestors at step %d' % k, r[k].ancestors, st.traj[k].ancestors)
    v.unchanged('frame', st, s)

def ck_backward(v):
    """smoothed moments of the linear states: forward pass followed by the Rauch-Tung-Striebel recursion, per trajectory"""
    (m, st, M, lxi, lz, T) = setup(v, True)
    s = v.snap(st)
    r = m.post_smoothing(st)
    e = filtered(m, st, lxi, lz)
    v.eq('length', len(r), T)
    n = lxi + lz + lz * lz
    (x, zs, Ps) = m.get_states(e[T - 1])
    v.eq('particles at the last step', r[T - 1].pa.part[:, :n], e[T - 1])
    for i in range(T - 1):
        k = T - 2 - i
        p = e[k].copy()
        xn = st.traj[k + 1].pa.part[:, :lxi].copy()
        m.meas_xi_next(p, xn, st.u[k], st.t[k])
        (A, f, Q) = m.calc_cond_dynamics(p, xn, st.u[k], st.t[k])
        (x, z, P) = m.get_states(p)
        # smoothed moments of the following step are those reported (checked one by one)
        (xx, zs, Ps) = m.get_states(r[k + 1].pa.part[:, :n].copy())
        ez = np.zeros((M, lz, 1)); eP = np.zeros((M, lz, lz)); eM = np.zeros((M, lz, lz))
        for j in range(M):
            S = A[j].dot(P[j]).dot(A[j].T) + Q[j]
            J = P[j].dot(A[j].T).dot(np.linalg.inv(S))
            ez[j] = z[j] + J.dot(zs[j] - A[j].dot(z[j]) - f[j])
            eP[j] = P[j] + J.dot(Ps[j] - S).dot(J.T)
            eM[j] = J.dot(Ps[j])
        (x, z, P) = m.get_states(r[k].pa.part)
        v.eq('nonlinear states at step %d' % k, x[:, :, 0], st.traj[k].pa.part[:, :lxi])
        v.eq('means at step %d' % k, z, ez)
        v.eq('covariances at step %d' % k, P, eP)
        v.eq('cross-covariances at step %d' % k, m.get_Mz(r[k].pa.part), eM)
    for k in range(T):
        v.eq('recorded ancestors at step %d' % k, r[k].ancestors, st.traj[k].ancestors)
    v.unchanged('frame', st, s)

# ---------------------------------------------------------------- any number of time steps
class Path(object):
    """recorded steps of any number: states X[k], ancestors A[k] (symbolic)"""
    def __init__(self, X, A): self.X = X; self.A = A; self.shape = (len(X),)
    def __len__(self): return len(self.X)
    def __getitem__(self, k):
        if k < 0: k = k + len(self.X)
        return Step(self.X[k].copy(), self.A[k].copy())

class Measurements(object):
    """the measurements, all there or all missing (a step of the proof looks at one of them)"""
    def __init__(self, Y, there): self.Y = Y; self.there = there
    def __getitem__(self, k):
        if k < 0: k = k + len(self.Y)
        return self.Y[k] if self.there else None

def setup_any(v):
    M = v.dim('M'); lxi = v.dim('lxi', 1, 2); lz = v.dim('lz', 1, 3)
    T = v.dim('T', 2, 8)
    cols = lxi + lz + lz * lz
    m = Given(v, lxi, lz)
    y = Measurements(v.arr('y', T, v.dim('ny', 1, 2), 1), v.choose('measured', ['yes', 'no']) == 'yes')
    st = Smoothed(Path(v.arr('traj', T, M, cols), v.idx('anc', M, T, M)), v.arr('u', T), y, v.arr('t', T))
    return (m, st, M, lxi, lz, T)

def lead(m, st, k): return st.traj.X[k][:, :m.lxi]

class ForwardLoop(object):
    """the forward pass: particles updated with the measurement, recorded, and moved to the next step"""
    calls = 'measure'
    def __init__(self, v, m, st, M): self.v = v; self.m = m; self.st = st; self.M = M; self.out = None
    def entry(self, loc):
        v = self.v; m = self.m; lxi = m.lxi
        self.name = the(v, loc, 'matrix')
        xi = lead(m, self.st, 0)
        (z, P) = m.get_rb_initial(xi.reshape((self.M, lxi, 1)))
        e = np.zeros((self.M, lxi + m.kf.lz + m.kf.lz * m.kf.lz))
        m.set_states(e, xi, z, P)
        v.eq('initial particles', loc[self.name], e)
        v.eq('number of steps', loc['#n'], len(self.st.traj) - 1)
    def havoc(self, loc):
        v = self.v
        self.out = Assembled(v, len(self.st.traj))
        self.p = v.fresh(self.M, loc[self.name].shape[1])
        if '#i' in loc:
            self.p[:, :self.m.lxi] = lead(self.m, self.st, loc['#i'])
        loc[self.name][:] = self.p
        return {the(v, loc, 'objects'): self.out, self.name: loc[self.name]}
    def modifies(self, loc): return [self.out, self.out.log, loc[self.name]]
    def filtered(self, k):
        e = self.p.copy()
        if self.st.y[k] is not None: self.m.measure(e, self.st.y[k], self.st.t[k])
        return e
    def written(self, k):
        v = self.v
        v.eq('one step written', len(self.out.log), 1)
        (kk, step) = self.out.log[0]
        v.eq('step written', kk, k)
        e = self.filtered(k)
        v.eq('particles at the step', step.pa.part, e)
        v.eq('recorded ancestors at the step', step.ancestors, self.st.traj.A[k])
        return e
    def back(self, loc):
        v = self.v; m = self.m; st = self.st; M = self.M; lz = m.kf.lz; k = loc['#i']
        p = self.written(k)
        xn = lead(m, st, k + 1).copy()
        m.meas_xi_next(p, xn, st.u[k], st.t[k])
        (A, f, Q) = m.calc_cond_dynamics(p, xn, st.u[k], st.t[k])
        (x, z, P) = m.get_states(p)
        zn = np.zeros((M, lz, 1)); Pn = np.zeros((M, lz, lz))
        for j in range(M):
            zn[j] = A[j].dot(z[j]) + f[j]
            Pn[j] = A[j].dot(P[j]).dot(A[j].T) + Q[j]
        m.set_states(p, xn, zn, Pn)
        v.eq('particles moved to the next step', loc[self.name], p)

def ck_forward_any(v):
    """any number of time steps"""
    if not v.symbolic: return ck_forward(v)
    (m, st, M, lxi, lz, T) = setup_any(v)
    loop = ForwardLoop(v, m, st, M)
    v.cut('pyparticleest.models.rbpf.RBPSBase.pre_mhips_pass', loop)
    s = v.snap((st.u, st.t, st.traj.X, st.traj.A, st.y.Y))
    r = m.pre_mhips_pass(st)
    if loop.out is None: v.unsupported('loop contract: no such loop')
    v.same('result', r, loop.out)
    loop.written(T - 1)
    v.unchanged('frame', (st.u, st.t, st.traj.X, st.traj.A, st.y.Y), s)

class Following(object):
    """what is assembled by the backward pass: the step after the current one is arbitrary, the others are not looked at"""
    def __init__(self, v, T): self.v = v; self.T = T; self.log = []; self.k = None; self.step = None
    def __len__(self): return self.T
    def __getitem__(self, k):
        if isinstance(k, slice): self.v.unsupported('part of a trajectory of any length')
        if k < 0: k = k + self.T
        if self.k is not None and k == self.k + 1: return self.step
        if len(self.log) == 1 and k == self.log[0][0]: return self.log[0][1]
        self.v.unsupported('another step of a trajectory of any length')
    def __setitem__(self, k, x):
        if k < 0: k = k + self.T
        self.log.append((k, x))

class BackwardLoop(object):
    """the backward pass: the linear states of a step from the filter moments and the smoothed moments of the next step"""
    calls = 'smooth'
    def __init__(self, v, m, st, F, M): self.v = v; self.m = m; self.st = st; self.F = F; self.M = M; self.out = None
    def width(self): return self.m.lxi + self.m.kf.lz + self.m.kf.lz * self.m.kf.lz
    def entry(self, loc):
        v = self.v; T = len(self.st.traj)
        out = loc[the(v, loc, 'objects')]
        v.eq('number of steps', loc['#n'], T - 1)
        v.eq('particles at the last step', out[T - 1].pa.part[:, :self.width()], self.F.X[T - 1])
        v.eq('recorded ancestors at the last step', out[T - 1].ancestors, self.F.A[T - 1])
    def havoc(self, loc):
        v = self.v; T = len(self.st.traj)
        self.out = Following(v, T)
        if '#i' in loc:
            k = T - 2 - loc['#i']
            x = v.fresh(self.M, self.width() + self.m.kf.lz * self.m.kf.lz)
            x[:, :self.m.lxi] = lead(self.m, self.st, k + 1)
            self.out.k = k
            self.out.step = Step(x, v.fresh_idx(self.M, self.M))
        return {the(v, loc, 'objects'): self.out}
    def modifies(self, loc): return [self.out, self.out.log]
    def back(self, loc):
        v = self.v; m = self.m; st = self.st; M = self.M; lz = m.kf.lz; lxi = m.lxi
        k = len(st.traj) - 2 - loc['#i']
        v.eq('one step written', len(self.out.log), 1)
        (kk, step) = self.out.log[0]
        v.eq('step written', kk, k)
        p = self.F.X[k].copy()
        xn = lead(m, st, k + 1).copy()
        m.meas_xi_next(p, xn, st.u[k], st.t[k])
        (A, f, Q) = m.calc_cond_dynamics(p, xn, st.u[k], st.t[k])
        (x, z, P) = m.get_states(p)
        (xx, zs, Ps) = m.get_states(self.out.step.pa.part[:, :self.width()].copy())
        ez = np.zeros((M, lz, 1)); eP = np.zeros((M, lz, lz)); eM = np.zeros((M, lz, lz))
        for j in range(M):
            S = A[j].dot(P[j]).dot(A[j].T) + Q[j]
            J = P[j].dot(A[j].T).dot(np.linalg.inv(S))
            ez[j] = z[j] + J.dot(zs[j] - A[j].dot(z[j]) - f[j])
            eP[j] = P[j] + J.dot(Ps[j] - S).dot(J.T)
            eM[j] = J.dot(Ps[j])
        (x, z, P) = m.get_states(step.pa.part)
        v.eq('nonlinear states', x[:, :, 0], lead(m, st, k))
        v.eq('means', z, ez)
        v.eq('covariances', P, eP)
        v.eq('cross-covariances', m.get_Mz(step.pa.part), eM)
        v.eq('recorded ancestors', step.ancestors, st.traj.A[k])

def ck_backward_any(v):
    """any number of time steps"""
    if not v.symbolic: return ck_backward(v)
    (m, st, M, lxi, lz, T) = setup_any(v)
    F = v.arr('filtered', T, M, lxi + lz + lz * lz)
    F[:, :, :lxi] = st.traj.X[:, :, :lxi]
    F = Path(F, st.traj.A)
    v.replace('pyparticleest.models.rbpf.RBPSBase.pre_mhips_pass', lambda self, st: F)
    loop = BackwardLoop(v, m, st, F, M)
    v.cut('pyparticleest.models.rbpf.RBPSBase.post_smoothing', loop)
    s = v.snap((st.u, st.t, st.traj.X, st.traj.A, st.y.Y))
    r = m.post_smoothing(st)
    if loop.out is None: v.unsupported('loop contract: no such loop')
    v.same('result', r, loop.out)
    v.unchanged('frame', (st.u, st.t, st.traj.X, st.traj.A, st.y.Y), s)

def exact(z0, P0, steps):
    """moments of all linear states given the nonlinear trajectory and the measurements, from their joint Gaussian distribution;
    steps: (C, h, R, y or None) and, between steps, (A, f, Q of (xi', z'), xi')"""
    lz = len(z0)
    m = z0.copy(); V = P0.copy(); cur = 0; where = [0]; obs = []; val = []
    def append(B, c, Q):
        nonlocal m, V
        n = len(m)
        X = B.dot(V[cur:cur + lz])
        m = np.hstack((m, B.dot(m[cur:cur + lz]) + c))
        V = np.vstack((np.hstack((V, X.T)), np.hstack((X, B.dot(V[cur:cur + lz, cur:cur + lz]).dot(B.T) + Q))))
        return n
    for s in steps:
        if isinstance(s[0], str):
            n = append(s[1][0], s[1][1], s[2]); obs += list(range(n, len(m))); val.append(s[3])
        else:
            n = append(s[0], s[1], s[2]); l = len(s[3])
            obs += list(range(n, n + l)); val.append(s[3]); cur = n + l; where.append(cur)
    if obs:
        G = V[:, obs].dot(np.linalg.inv(V[np.ix_(obs, obs)]))
        m, V = m + G.dot(np.hstack(val) - m[obs]), V - G.dot(V[obs, :])
    return ([m[w:w + lz] for w in where], [V[w:w + lz, w:w + lz] for w in where], [V[a:a + lz, b:b + lz] for a, b in zip(where, where[1:])])

def compare(v, m, st, r, initial, dynamics, measurement, lxi, lz):
    """against the joint distribution (concrete runs)"""
    M = len(st.traj[0].pa.part); T = len(st.traj)
    for j in range(M):
        steps = []
        for k in range(T):
            if st.y[k] is not None:
                (C, h, R) = measurement(st, k, j)
                if C is not None: steps.append(('y', (C, h), R, st.y[k].ravel()))
            if k + 1 < T:
                (A, f, Q) = dynamics(st, k, j)
                steps.append((A, f, Q, st.traj[k + 1].pa.part[j, :lxi] if len(f) > lz else np.zeros((0,))))
        (z0, P0) = initial(st, j)
        (ez, eP, eM) = exact(z0, P0, steps)
        for k in range(T):
            (x, z, P) = m.get_states(r[k].pa.part)
            v.eq('exact mean at step %d' % k, z[j, :, 0], ez[k])
            v.eq('exact covariance at step %d' % k, P[j], eP[k])
            if k + 1 < T: v.eq('exact cross-covariance at step %d' % k, m.get_Mz(r[k].pa.part)[j], eM[k])
