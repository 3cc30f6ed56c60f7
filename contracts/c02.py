"""P02: Kalman measurement update."""
import math
import numpy as np
import pyparticleest.utils.kalman as kalman_py
import pyparticleest.utils.ckalman as kalman_c

def ref_ll(e, S):
    n = len(e)
    return -0.5 * (n * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + e.T.dot(np.linalg.inv(S)).dot(e))

def mod(v):
    return {'py': kalman_py, 'pyx': kalman_c}[v.choose('impl', ['py', 'pyx'])]

def posterior(z, P, C, h, R, y):
    S = C.dot(P).dot(C.T) + R
    K = P.dot(C.T).dot(np.linalg.inv(S))
    err = y - h - C.dot(z)
    return z + K.dot(err), P - K.dot(C).dot(P), ref_ll(err, S)

def setup(v, m):
    n = v.dim('n')
    z = v.arr('z', n, 1); P = v.spd('P', n)
    C = v.arr('C', m, n); R = v.spd('R', m); h = v.arr('h', m, 1); y = v.arr('y', m, 1)
    return (n, z, P, C, R, h, y)

def check_update(v, call, m, exact=False):
    (n, z, P, C, R, h, y) = setup(v, m)
    if exact:
        R = np.zeros((1, 1))
    hasC = exact or v.choose('C', ['given', 'absent']) == 'given'
    hasH = v.choose('h', ['given', 'absent']) == 'given'
    h0 = h if hasH else np.zeros((m, 1))
    mats = (y, C, R, h)
    s0 = v.snap(mats); z0 = z.copy(); P0 = P.copy()
    r = call(y, z, P, C if hasC else None, h if hasH else None, R)
    if hasC:
        (ze, Pe, ll) = posterior(z0, P0, C, h0, R, y)
    else:
        (ze, Pe, ll) = (z0, P0, ref_ll(y - h0, R))
    v.eq('log-likelihood', r, ll)
    v.eq('posterior mean', z, ze)
    v.eq('posterior covariance', P, Pe)
    v.unchanged('measurement and model matrices', mats, s0)

def ck_measure_full(v):
    k = mod(v)
    m = v.dim('m')
    kf = k.KalmanFilter(v.dim('n'))
    s0 = v.snap(kf)
    check_update(v, kf.measure_full, m)
    v.unchanged('stored model', kf, s0)

def ck_measure_full_scalar(v):
    k = mod(v)
    kf = k.KalmanFilter(v.dim('n'))
    check_update(v, kf.measure_full_scalar, 1)

def ck_measure_exact(v):
    """a scalar measurement without noise"""
    k = mod(v)
    kf = k.KalmanFilter(v.dim('n'))
    check_update(v, kf.measure_full_scalar, 1, True)

def ck_measure_stored(v):
    """measure() uses exactly the stored C, h, R"""
    k = mod(v)
    m = v.dim('m')
    (n, z, P, C, R, h, y) = setup(v, m)
    hasH = v.choose('h', ['given', 'absent']) == 'given'
    if v.choose('set by', ['constructor', 'set_dynamics']) == 'constructor':
        kf = k.KalmanFilter(n, C=C, R=R, h_k=h if hasH else None)
    else:
        kf = k.KalmanFilter(n)
        kf.set_dynamics(C=C, R=R, h_k=h if hasH else None)
    s0 = v.snap((y, C, R, h)); z0 = z.copy(); P0 = P.copy()
    r = kf.measure(y, z, P)
    (ze, Pe, ll) = posterior(z0, P0, C, h if hasH else np.zeros((m, 1)), R, y)
    v.eq('log-likelihood', r, ll)
    v.eq('posterior mean', z, ze)
    v.eq('posterior covariance', P, Pe)
    v.unchanged('measurement and model matrices', (y, C, R, h), s0)

def ck_measurement_diff(v):
    k = mod(v)
    m = v.dim('m')
    (n, z, P, C, R, h, y) = setup(v, m)
    kf = k.KalmanFilter(n)
    hasC = v.choose('C', ['given', 'absent']) == 'given'
    hasH = v.choose('h', ['given', 'absent']) == 'given'
    s0 = v.snap((y, z, C, h))
    r = kf.measurement_diff(y, z, C if hasC else None, h if hasH else None)
    e = y
    if hasC:
        e = e - C.dot(z)
    if hasH:
        e = e - h
    v.eq('innovation', r, e)
    v.unchanged('arguments', (y, z, C, h), s0)

CONTRACTS = ['ck_measure_full', 'ck_measure_full_scalar', 'ck_measure_exact', 'ck_measure_stored', 'ck_measurement_diff']
