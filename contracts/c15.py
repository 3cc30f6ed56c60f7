"""P15: Rao-Blackwellised particles store their state losslessly."""
import numpy as np
import pyparticleest.models.mlnlg as mlnlg
import pyparticleest.models.hierarchial as hier
import pyparticleest.filter as pf

class Hier(hier.HierarchicalRSBase):
    def __init__(self, v, lxi, lz, **kw):
        self.v = v
        hier.HierarchicalRSBase.__init__(self, len_xi=lxi, len_z=lz, **kw)

    def get_rb_initial(self, xi_initial): return None
    def create_initial_estimate(self, N): return None

def model(v, lxi, lz):
    kind = v.choose('model', ['mixed', 'marginalised', 'hierarchical'])
    if kind == 'mixed': return mlnlg.MixedNLGaussianSampled(lxi, lz)
    if kind == 'marginalised': return mlnlg.MixedNLGaussianMarginalized(lxi, lz)
    return Hier(v, lxi, lz)

def setup(v):
    N = v.dim('N'); lxi = v.dim('lxi', 1, 3); lz = v.dim('lz', 1, 3)
    return (N, lxi, lz, model(v, lxi, lz))

def ck_roundtrip(v):
    """what is written is what is read, and nothing beyond the written columns changes"""
    (N, lxi, lz, m) = setup(v)
    extra = v.dim('extra', 1, 3)
    part = v.arr('part', N, lxi + lz + lz * lz + extra)
    old = part.copy()
    xi = v.arr('xi', N, lxi, 1); z = v.arr('z', N, lz, 1); P = v.arr('P', N, lz, lz)
    if v.choose('xi', ['column', 'flat']) == 'flat':
        m.set_states(part, xi.reshape((N, lxi)), z, P)
    else:
        s = v.snap((xi, z, P))
        m.set_states(part, xi, z, P)
        v.unchanged('arguments', (xi, z, P), s)
    (xr, zr, Pr) = m.get_states(part)
    v.eq('nonlinear states', xr, xi)
    v.eq('linear means', zr, z)
    v.eq('linear covariances', Pr, P)
    v.eq('remaining columns', part[:, lxi + lz + lz * lz:], old[:, lxi + lz + lz * lz:])

def ck_get(v):
    """reading changes nothing and reads the documented columns"""
    (N, lxi, lz, m) = setup(v)
    part = v.arr('part', N, lxi + lz + 2 * lz * lz)
    s = v.snap((part, m))
    (xr, zr, Pr) = m.get_states(part)
    Mr = m.get_Mz(part)
    i = v.index('i', N)
    v.eq('nonlinear state', xr[i, :, 0], part[i, :lxi])
    v.eq('linear mean', zr[i, :, 0], part[i, lxi:lxi + lz])
    v.eq('linear covariance', Pr[i], part[i, lxi + lz:lxi + lz + lz * lz].reshape((lz, lz)))
    v.eq('cross covariance', Mr[i], part[i, lxi + lz + lz * lz:].reshape((lz, lz)))
    v.unchanged('frame', (part, m), s)

def ck_cross(v):
    """the cross-covariance is stored apart from the states"""
    (N, lxi, lz, m) = setup(v)
    n = lxi + lz + lz * lz
    part = v.arr('part', N, n + lz * lz)
    old = part.copy()
    M = v.arr('M', N, lz, lz)
    m.set_Mz(part, M)
    v.eq('cross-covariance', m.get_Mz(part), M)
    v.eq('states', part[:, :n], old[:, :n])
    xi = v.arr('xi', N, lxi, 1); z = v.arr('z', N, lz, 1); P = v.arr('P', N, lz, lz)
    m.set_states(part, xi, z, P)
    v.eq('cross-covariance survives new states', m.get_Mz(part), M)

def ck_single(v):
    """writing one particle leaves the others alone"""
    (N, lxi, lz, m) = setup(v)
    n = lxi + lz + lz * lz
    part = v.arr('part', N, n + lz * lz)
    old = part.copy()
    xi = v.arr('xi', 1, lxi, 1); z = v.arr('z', 1, lz, 1); P = v.arr('P', 1, lz, lz); M = v.arr('M', 1, lz, lz)
    i = v.index('i', N)
    m.set_states(part[i:i + 1, :], xi, z, P)
    m.set_Mz(part[i:i + 1, :], M)
    e = old.copy()
    e[i, :lxi] = xi[0, :, 0]
    e[i, lxi:lxi + lz] = z[0, :, 0]
    e[i, lxi + lz:n] = P[0].ravel()
    e[i, n:] = M[0].ravel()
    v.eq('particles', part, e)

def ck_copy(v):
    """copying particles by index copies all of their state"""
    (N, lxi, lz, m) = setup(v)
    n = lxi + lz + lz * lz
    part = v.arr('part', N, n)
    s = v.snap(part)
    K = v.dim('K')
    ind = v.idx('ind', N, K)
    r = m.copy_ind(part, ind)
    (x0, z0, P0) = m.get_states(part)
    (x1, z1, P1) = m.get_states(r)
    v.eq('nonlinear states', x1, x0[ind])
    v.eq('linear means', z1, z0[ind])
    v.eq('linear covariances', P1, P0[ind])
    v.unchanged('source', part, s)
    v.disjoint('copy and source', r, part)

MATS = ['Az', 'fz', 'Qz', 'C', 'h', 'R', 'Axi', 'fxi', 'Qxi', 'Qxiz']

def mats(v, lxi, lz, ny, sfx):
    return {'Az': v.arr('Az' + sfx, lz, lz), 'fz': v.arr('fz' + sfx, lz, 1), 'Qz': v.arr('Qz' + sfx, lz, lz),
            'C': v.arr('C' + sfx, ny, lz), 'h': v.arr('h' + sfx, ny, 1), 'R': v.arr('R' + sfx, ny, ny),
            'Axi': v.arr('Axi' + sfx, lxi, lz), 'fxi': v.arr('fxi' + sfx, lxi, 1), 'Qxi': v.arr('Qxi' + sfx, lxi, lxi),
            'Qxiz': v.arr('Qxiz' + sfx, lxi, lz)}

def in_force(v, m, N, lxi, lz, y):
    """the matrices the model uses for every particle"""
    part = v.arr('probe', N, lxi + lz + lz * lz)
    u = v.tag('u'); t = v.tag('t')
    (Az, fz, Qz) = m.get_lin_pred_dynamics_int(part, u, t)[:3]
    (yr, C, h, R) = m.get_meas_dynamics_int(part, y, t)[:4]
    (Axi, fxi, Qxi) = m.get_nonlin_pred_dynamics_int(part, u, t)[:3]
    return {'Az': Az, 'fz': fz, 'Qz': Qz, 'C': C, 'h': h, 'R': R, 'Axi': Axi, 'fxi': fxi, 'Qxi': Qxi}

def ck_dynamics(v):
    """constructor and partial updates: every particle uses the matrices last supplied, and nothing else changes"""
    N = v.dim('N'); lxi = v.dim('lxi', 1, 3); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 3)
    old = mats(v, lxi, lz, ny, '0'); new = mats(v, lxi, lz, ny, '1')
    s = v.snap((old, new))
    m = mlnlg.MixedNLGaussianSampled(lxi, lz, **old)
    y = v.arr('y', ny, 1)
    groups = [[], ['Az'], ['fz'], ['Qz'], ['C'], ['h'], ['R'], ['Axi'], ['fxi'], ['Qxi'], ['Qxiz'], ['Az', 'fxi', 'R'], MATS]
    names = v.choose('supplied', groups)
    m.set_dynamics(**dict([(k, new[k]) for k in names]))
    now = in_force(v, m, N, lxi, lz, y)
    for k in now:
        v.eq('number of ' + k, len(now[k]), N)
        i = v.index('i', N)
        v.eq(k, now[k][i], new[k] if k in names else old[k])
    v.eq('Qxiz', m.Qxiz, new['Qxiz'] if 'Qxiz' in names else old['Qxiz'])
    v.unchanged('arguments', (old, new), s)

def ck_dynamics_hier(v):
    """the same for the linear part of hierarchical models"""
    N = v.dim('N'); lxi = v.dim('lxi', 1, 3); lz = v.dim('lz', 1, 3); ny = v.dim('ny', 1, 3)
    old = mats(v, lxi, lz, ny, '0'); new = mats(v, lxi, lz, ny, '1')
    alias = {'Az': 'Az', 'fz': 'fz', 'Qz': 'Qz', 'C': 'C', 'h': 'hz', 'R': 'R'}
    s = v.snap((old, new))
    m = Hier(v, lxi, lz, **dict([(alias[k], old[k]) for k in alias]))
    names = v.choose('supplied', [[], ['Az'], ['fz'], ['Qz'], ['C'], ['h'], ['R'], ['Az', 'C'], ['Az', 'fz', 'Qz', 'C', 'h', 'R']])
    m.set_dynamics(**dict([(alias[k], new[k]) for k in names]))
    part = v.arr('probe', N, lxi + lz + lz * lz)
    (Az, fz, Qz) = m.get_lin_pred_dynamics_int(part, v.tag('u'), v.tag('t'))[:3]
    (yr, C, h, R) = m.get_meas_dynamics_int(part, v.arr('y', ny, 1), v.tag('t'))[:4]
    now = {'Az': Az, 'fz': fz, 'Qz': Qz, 'C': C, 'h': h, 'R': R}
    i = v.index('i', N)
    for k in now:
        v.eq(k, now[k][i], new[k] if k in names else old[k])
    v.unchanged('arguments', (old, new), s)

def initial(v):
    N = v.dim('N'); lxi = v.dim('lxi', 1, 3); lz = v.dim('lz', 1, 3)
    xi0 = v.arr('xi0', lxi); z0 = v.arr('z0', lz)
    kw = {}
    (Pxi0, Pz0) = (np.zeros((lxi, lxi)), np.zeros((lz, lz)))
    given = v.choose('given', ['both', 'Pxi0', 'Pz0', 'none'])
    if given in ('both', 'Pxi0'):
        Pxi0 = v.spd('Pxi0', lxi); kw['Pxi0'] = Pxi0
    if given in ('both', 'Pz0'):
        Pz0 = v.spd('Pz0', lz); kw['Pz0'] = Pz0
    kind = v.choose('class', ['sampled', 'marginalised, columns'])
    s = v.snap((xi0, z0, Pxi0, Pz0))
    if kind == 'sampled':
        m = mlnlg.MixedNLGaussianSampledInitialGaussian(xi0, z0, **kw)
    else:
        m = mlnlg.MixedNLGaussianMarginalizedInitialGaussian(xi0.reshape((lxi, 1)), z0.reshape((lz, 1)), **kw)
    v.unchanged('arguments', (xi0, z0, Pxi0, Pz0), s)
    return (N, lxi, lz, xi0, z0, Pxi0, Pz0, m)

def ck_initial(v):
    """initial particles: nonlinear states from the specified Gaussian, exact linear moments"""
    (N, lxi, lz, xi0, z0, Pxi0, Pz0, m) = initial(v)
    s = v.snap((xi0, z0, Pxi0, Pz0)); s2 = v.snap(m)
    (mean, cov) = v.moments(lambda: m.create_initial_estimate(N))
    n = lxi + lz + lz * lz
    v.eq('mean of the nonlinear states', mean[:, :lxi], np.zeros((N, lxi)) + xi0)
    v.eq('linear means', mean[:, lxi:lxi + lz], np.zeros((N, lz)) + z0)
    v.eq('linear covariances', mean[:, lxi + lz:], np.zeros((N, lz * lz)) + Pz0.ravel())
    V = np.zeros((N, lxi, N, lxi))
    for i in range(N):
        V[i, :, i, :] = Pxi0
    v.eq('covariance of the nonlinear states', cov[:, :lxi, :, :lxi], V)
    v.eq('linear moments are not random', cov[:, lxi:, :, lxi:], np.zeros((N, n - lxi, N, n - lxi)))
    v.unchanged('model', m, s2)
    v.unchanged('arguments', (xi0, z0, Pxi0, Pz0), s)

def ck_initial_linear(v):
    """linear moments given initial nonlinear states"""
    (N, lxi, lz, xi0, z0, Pxi0, Pz0, m) = initial(v)
    s2 = v.snap(m)
    n = lxi + lz + lz * lz
    part = v.arr('part', N, n)
    (zl, Pl) = m.get_rb_initial(part[:, :lxi].reshape((N, lxi, 1)))
    i = v.index('i', N)
    v.eq('initial linear mean', zl[i], z0.reshape((lz, 1)))
    v.eq('initial linear covariance', Pl[i], Pz0)
    v.disjoint('initial moments and model', (zl, Pl), m)
    s3 = v.snap(part)
    r = m.cond_sampled_initial(part, v.tag('t'))
    v.eq('nonlinear states kept', r[:, :lxi], part[:, :lxi])
    v.eq('linear means set', r[:, lxi:lxi + lz], np.zeros((N, lz)) + z0)
    v.eq('linear covariances set', r[:, lxi + lz:], np.zeros((N, lz * lz)) + Pz0.ravel())
    v.unchanged('particles', part, s3)
    v.unchanged('model', m, s2)

CONTRACTS = ['ck_roundtrip', 'ck_get', 'ck_cross', 'ck_single', 'ck_copy', 'ck_dynamics', 'ck_dynamics_hier', 'ck_initial', 'ck_initial_linear']
