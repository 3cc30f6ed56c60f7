"""P01: Gaussian log-densities."""
import math
import numpy as np
import scipy.linalg
import pyparticleest.utils.kalman as kalman_py
import pyparticleest.utils.ckalman as kalman_c
from contracts.stubs import scale

def ref(e, S):
    """log N(e; 0, S)"""
    n = len(e)
    return -0.5 * (n * math.log(2 * math.pi) + np.linalg.slogdet(S)[1] + e.dot(np.linalg.inv(S)).dot(e))

def mod(v):
    return {'py': kalman_py, 'pyx': kalman_c}[v.choose('impl', ['py', 'pyx'])]

def ck_lognormpdf(v):
    k = mod(v)
    n = v.dim('n')
    c = scale(v)
    e = v.arr('e', n) * c ** 0.5; S = v.spd('S', n) * c
    arg = e if v.choose('err', ['flat', 'column']) == 'flat' else e.reshape((n, 1))
    s0 = v.snap((arg, S))
    r = k.lognormpdf(arg, S)
    v.eq('log-density', r, ref(e, S))
    v.unchanged('arguments', (arg, S), s0)

def ck_lognormpdf_cho(v):
    k = mod(v)
    n = v.dim('n')
    c = scale(v)
    e = v.arr('e', n) * c ** 0.5; S = v.spd('S', n) * c
    ch = scipy.linalg.cho_factor(S)
    arg = e if v.choose('err', ['flat', 'column']) == 'flat' else e.reshape((n, 1))
    s0 = v.snap((arg, ch))
    r = k.lognormpdf_cho(arg, ch)
    v.eq('log-density', r, ref(e, S))
    v.unchanged('arguments', (arg, ch), s0)

def ck_lognormpdf_cho_vec(v):
    k = mod(v)
    n = v.dim('n'); N = v.dim('N')
    c = scale(v)
    e = v.arr('e', N, n) * c ** 0.5; S = v.spd('S', n) * c
    ch = scipy.linalg.cho_factor(S)
    s0 = v.snap((e, ch))
    r = k.lognormpdf_cho_vec(e, ch)
    exp_ = np.zeros((N,))
    for i in range(N):
        exp_[i] = ref(e[i], S)
    v.eq('log-density of every residual, in order', r, exp_)
    v.unchanged('arguments', (e, ch), s0)

def ck_lognormpdf_vec(v):
    k = mod(v)
    n = v.dim('n'); N = v.dim('N')
    c = scale(v)
    e = v.arr('e', N, n) * c ** 0.5
    if v.choose('cov', ['per residual', 'shared']) == 'shared':
        S = v.spd('S', n) * c
        Sl = np.zeros((N, n, n))
        for i in range(N):
            Sl[i] = S
    else:
        Sl = v.spd('Sl', n, (N,)) * c
    s0 = v.snap((e, Sl))
    arg = Sl
    if v.choose('container', ['array', 'list']) == 'list':
        arg = [Sl[i] for i in range(N)]
    r = k.lognormpdf_vec(e, arg)
    exp_ = np.zeros((N,))
    for i in range(N):
        exp_[i] = ref(e[i], Sl[i])
    v.eq('log-density of every residual, in order', r, exp_)
    v.unchanged('arguments', (e, Sl), s0)

def ck_lognormpdf_scalar(v):
    k = mod(v)
    N = v.dim('N')
    c = scale(v)
    e = v.arr('e', N) * c ** 0.5; S = v.spd('S', 1) * c
    shp = v.choose('err', ['flat', 'column'])
    arg = e if shp == 'flat' else e.reshape((N, 1))
    s0 = v.snap((arg, S))
    r = k.lognormpdf_scalar(arg, S)
    exp_ = np.zeros((N,))
    for i in range(N):
        exp_[i] = ref(e[i:i + 1], S)
    v.eq('log-density of every residual, in order', r, exp_)
    v.unchanged('arguments', (arg, S), s0)

CONTRACTS = ['ck_lognormpdf', 'ck_lognormpdf_cho', 'ck_lognormpdf_cho_vec', 'ck_lognormpdf_vec', 'ck_lognormpdf_scalar']
