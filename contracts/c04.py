"""P04: systematic resampling."""
import numpy as np
import pyparticleest.filter as pf
import pyparticleest.interfaces as pi
import contracts.stubs as S

def ck_sample(v):
    """n indices from any non-negative weights with positive sum"""
    N = v.dim('N', 1, 6); n = v.dim('n', 1, 6)
    w = v.weights('w', N)
    s0 = v.snap(w)
    ind = v.lowvar('draw', lambda: pf.sample(w, n), w / np.sum(w), n)
    v.check('one index per requested draw', len(ind) == n)
    v.unchanged('weights', w, s0)

def ck_sample_scale(v):
    N = v.dim('N', 1, 6); n = v.dim('n', 1, 6)
    w = v.weights('w', N); c = v.posnum('c')
    if not v.symbolic: c = c * v.choose('order of magnitude', [1.0, 1e-250, 1e250])
    v.lowvar('draw from scaled weights', lambda: pf.sample(c * w, n), w / np.sum(w), n)

def ck_resample(v):
    N = v.dim('N', 1, 6); D = v.dim('D', 1, 2)
    part = v.arr('part', N, D); lw = S.lifted(v, v.lw('lw', N))
    if not v.symbolic and v.choose('weights', ['comparable', 'one negligible']) == 'one negligible' and N > 1:
        lw[v.choose('negligible', [0, N - 1])] -= 900.0
    m = S.PFModel(v, D)
    same = v.choose('number of particles', ['kept', 'changed'])
    n = N if same == 'kept' else v.dim('n', 1, 6)
    out = []
    def run():
        pa = pf.ParticleApproximation(part, lw)
        storage = pa.part
        if same == 'kept':
            ind = pa.resample(m)
        else:
            ind = pa.resample(m, n)
        out.append((pa, storage, ind))
        return ind
    v.lowvar('reported ancestors', run, S.softmax(lw), n)
    (pa, storage, ind) = out[-1]
    v.eq('selected particles, in order', pa.part, part[ind])
    v.eq('equal weights', pa.w, -np.log(n) * np.ones(n))
    v.eq('offset reset', pa.w_offset, 0.0)
    v.eq('number of particles', pa.num, n)
    v.eq('length', len(pa), n)
    v.eq('storage of the previous particles is not written', storage, part)
    v.disjoint('new particles do not share storage', pa.part, (storage, part))

def ck_construct(v):
    """a particle approximation owns copies of what it was built from"""
    N = v.dim('N'); D = v.dim('D', 1, 2)
    part = v.arr('part', N, D); lw = v.lw('lw', N)
    if v.choose('weights', ['given', 'default']) == 'given':
        pa = pf.ParticleApproximation(part, lw)
        v.eq('weights', pa.w, lw)
        v.disjoint('weights copied', pa.w, lw)
    else:
        pa = pf.ParticleApproximation(part)
        v.eq('uniform weights', pa.w, -np.log(N) * np.ones(N))
    v.eq('particles', pa.part, part)
    v.disjoint('particles copied', pa.part, part)
    v.eq('number', pa.num, N)
    v.eq('length', len(pa), N)
    v.eq('offset', pa.w_offset, 0.0)

def ck_neff(v):
    N = v.dim('N'); part = v.arr('part', N, 1); lw = S.lifted(v, v.lw('lw', N))
    pa = pf.ParticleApproximation(part, lw)
    s0 = v.snap(pa)
    r = pa.calc_Neff()
    p = S.softmax(lw)
    v.eq('effective number of particles', r, 1.0 / np.sum(p * p))
    v.unchanged('approximation', pa, s0)

def ck_draw_one(v):
    N = v.dim('N', 1, 6); part = v.arr('part', N, 1); lw = S.lifted(v, v.lw('lw', N))
    pa = pf.ParticleApproximation(part, lw)
    s0 = v.snap(pa)
    (x, d) = v.uniforms(lambda: pa.sample())
    v.eq('shape of the drawn particle', len(x), 1)
    if not v.symbolic:
        v.check('one of the particles', np.any(np.all(pa.part == x, axis=1)))
    v.unchanged('approximation', pa, s0)
    # particle i carries the value i: which particle is drawn
    pb = pf.ParticleApproximation(np.arange(N).reshape((N, 1)), lw)
    v.categorical('drawn in proportion to its weight', lambda: pb.sample(), S.softmax(lw).reshape((1, N)))

def ck_best(v):
    N = v.dim('N', 1, 6); part = v.arr('part', N, 1); lw = v.lw('lw', N)
    pa = pf.ParticleApproximation(part, lw)
    n = v.index('k', N) + 1
    s0 = v.snap(pa)
    ind = pa.find_best_particles(n)
    v.eq('number', len(ind), n)
    if v.symbolic:
        v.eq('the last n of the ascending order', ind, np.argsort(lw)[::-1][:n])
        v.unchanged('approximation', pa, s0)
        return
    rest = [i for i in range(N) if i not in list(ind)]
    v.eq('distinct', len(set([int(i) for i in ind])), n)
    for i in rest:
        for j in ind:
            v.le('no better particle left out', lw[i], lw[j])
    v.unchanged('approximation', pa, s0)

class Proposing(pi.SIR): pass

def ck_copy_ind(v):
    """model-supplied copying of selected particles (default array storage)"""
    N = v.dim('N'); M = v.dim('M'); D = v.dim('D', 1, 2)
    part = v.arr('part', N, D); ind = v.idx('ind', N, M)
    kind = v.choose('model', ['markov', 'own proposal'])
    m = S.PFModel(v, D) if kind == 'markov' else Proposing()
    s0 = v.snap((part, ind))
    if kind == 'own proposal':
        x = m.sample_smooth(part, None, None, None, None, None, None, None, 0)
        v.eq('smoothed as they are', x, part)
        v.disjoint('smoothed', x, part)
    r = m.copy_ind(part, ind)
    v.eq('selected', r, part[ind])
    r2 = m.copy_ind(part)
    v.eq('all', r2, part)
    v.unchanged('source', (part, ind), s0)
    v.disjoint('copy', (r, r2), part)

TRUSTED = ['lemmas on systematic resampling (vc/smt.py lowvar_lemmas): discharged by z3 by induction on every run; the uniform draw lies in (0, 1)',
           'numpy.argsort returns a permutation in ascending order']
ASSUMPTIONS = ['particles in array storage; models with their own storage only through the documented copy_ind interface']
CONTRACTS = ['ck_sample', 'ck_sample_scale', 'ck_resample', 'ck_construct', 'ck_neff', 'ck_draw_one', 'ck_best', 'ck_copy_ind']
