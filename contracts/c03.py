"""P03: Kalman prediction, stored dynamics, fixed-interval smoothing."""
import numpy as np
import pyparticleest.utils.kalman as kalman_py
import pyparticleest.utils.ckalman as kalman_c

def mod(v):
    return {'py': kalman_py, 'pyx': kalman_c}[v.choose('impl', ['py', 'pyx'])]

def setup(v):
    n = v.dim('n')
    return (n, v.arr('z', n, 1), v.spd('P', n), v.arr('A', n, n), v.arr('f', n, 1), v.spd('Q', n))

def ck_predict_full(v):
    k = mod(v)
    (n, z, P, A, f, Q) = setup(v)
    kf = k.KalmanFilter(n)
    s0 = v.snap((z, P, A, f, Q))
    (zn, Pn) = kf.predict_full(z, P, A, f, Q)
    v.eq('predicted mean', zn, A.dot(z) + f)
    v.eq('predicted covariance', Pn, A.dot(P).dot(A.T) + Q)
    v.unchanged('inputs', (z, P, A, f, Q), s0)
    v.disjoint('result is fresh', (zn, Pn), (z, P, A, f, Q))

def ck_predict_full_inplace(v):
    k = mod(v)
    (n, z, P, A, f, Q) = setup(v)
    kf = k.KalmanFilter(n)
    s0 = v.snap((A, f, Q)); z0 = z.copy(); P0 = P.copy()
    (zn, Pn) = kf.predict_full_inplace(z, P, A, f, Q)
    v.eq('stored mean', z, A.dot(z0) + f)
    v.eq('stored covariance', P, A.dot(P0).dot(A.T) + Q)
    v.eq('returned mean', zn, z)
    v.eq('returned covariance', Pn, P)
    v.unchanged('model matrices', (A, f, Q), s0)

def ck_predict_stored(v):
    k = mod(v)
    (n, z, P, A, f, Q) = setup(v)
    if v.choose('set by', ['constructor', 'set_dynamics']) == 'constructor':
        kf = k.KalmanFilter(n, A=A, Q=Q, f_k=f)
    else:
        kf = k.KalmanFilter(n)
        kf.set_dynamics(A=A, Q=Q, f_k=f)
    (zn, Pn) = kf.predict(z, P)
    v.eq('predicted mean', zn, A.dot(z) + f)
    v.eq('predicted covariance', Pn, A.dot(P).dot(A.T) + Q)

def ck_predict_nof(v):
    """without an additive constant it is zero"""
    k = mod(v)
    (n, z, P, A, f, Q) = setup(v)
    kf = k.KalmanFilter(n, A=A, Q=Q)
    (zn, Pn) = kf.predict(z, P)
    v.eq('predicted mean', zn, A.dot(z))
    v.eq('predicted covariance', Pn, A.dot(P).dot(A.T) + Q)

def ck_set_dynamics(v):
    k = mod(v)
    n = v.dim('n'); m = v.dim('m')
    shapes = {'A': (n, n), 'C': (m, n), 'Q': (n, n), 'R': (m, m), 'f_k': (n, 1), 'h_k': (m, 1)}
    names = ['A', 'C', 'Q', 'R', 'f_k', 'h_k']
    old = {}
    for q in names:
        old[q] = v.arr('old_' + q, *shapes[q])
    kf = k.KalmanFilter(n, A=old['A'], C=old['C'], Q=old['Q'], R=old['R'], f_k=old['f_k'], h_k=old['h_k'])
    new = {}
    for q in names:
        if v.choose(q, ['kept', 'replaced']) == 'replaced':
            new[q] = v.arr('new_' + q, *shapes[q])
    kf.set_dynamics(**new)
    v.eq('A', kf.A, new.get('A', old['A']))
    v.eq('C', kf.C, new.get('C', old['C']))
    v.eq('Q', kf.Q, new.get('Q', old['Q']))
    v.eq('R', kf.R, new.get('R', old['R']))
    v.eq('f', kf.f_k, new.get('f_k', old['f_k']))
    v.eq('h', kf.h_k, new.get('h_k', old['h_k']))

def ck_smooth(v):
    k = mod(v)
    (n, z, P, A, f, Q) = setup(v)
    zn = v.arr('z_next', n, 1); Pn = v.psd('P_next', n)
    ks = k.KalmanSmoother(n)
    s0 = v.snap((z, P, zn, Pn, A, f, Q))
    (zs, Ps, Ms) = ks.smooth(z, P, zn, Pn, A, f, Q)
    zp = A.dot(z) + f
    Pp = A.dot(P).dot(A.T) + Q
    J = P.dot(A.T).dot(np.linalg.inv(Pp))
    v.eq('smoothed mean', zs, z + J.dot(zn - zp))
    v.eq('smoothed covariance', Ps, P + J.dot(Pn - Pp).dot(J.T))
    v.eq('lag-one cross-covariance', Ms, J.dot(Pn))
    v.unchanged('inputs', (z, P, zn, Pn, A, f, Q), s0)
    v.disjoint('result is fresh', (zs, Ps, Ms), (z, P, zn, Pn, A, f, Q))

CONTRACTS = ['ck_predict_full', 'ck_predict_full_inplace', 'ck_predict_stored', 'ck_predict_nof', 'ck_set_dynamics', 'ck_smooth']
