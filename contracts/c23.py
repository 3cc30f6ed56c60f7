"""P23: density of the sum of two independent uniform variables."""
from pyparticleest.utils.pdf import unifsum

CONTRACTS = ['ck_density', 'ck_shape']
TRUSTED = []
ASSUMPTIONS = ['Machine arithmetic is treated as real arithmetic; widths are positive; the point is a scalar.']

def intervals(v):
    """two intervals of positive width, their ends given in any order"""
    a = v.num('a'); w1 = v.posnum('w1')
    b = v.num('b'); w2 = v.posnum('w2')
    o1 = v.choose('first interval', ['lower end first', 'upper end first'])
    o2 = v.choose('second interval', ['lower end first', 'upper end first'])
    ab = (a, a + w1) if o1 == 'lower end first' else (a + w1, a)
    cd = (b, b + w2) if o2 == 'lower end first' else (b + w2, b)
    return (a, w1, b, w2, unifsum(ab, cd))

def density(a, w1, b, w2, p):
    """convolution of the two indicators: length of the overlap of
    [a, a + w1] and [p - b - w2, p - b] over the product of the widths"""
    hi = a + w1 if a + w1 < p - b else p - b
    lo = a if a > p - b - w2 else p - b - w2
    return (hi - lo) / (w1 * w2) if lo < hi else 0.0

def point(v, a, w1, b, w2):
    if v.symbolic:
        return v.num('p')
    # points spread over and beyond the support, and the break points
    s = v.choose('where', ['inside', 'anywhere', 'l', 'l1', 'h1', 'h'])
    k = {'l': 0.0, 'l1': min(w1, w2), 'h1': max(w1, w2), 'h': w1 + w2}
    if s in k:
        return a + b + k[s]
    if s == 'inside':
        return a + b + abs(v.num('s')) % 1.0 * (w1 + w2)
    return v.num('p')

def ck_density(v):
    (a, w1, b, w2, f) = intervals(v)
    p = point(v, a, w1, b, w2)
    r = f(p)
    v.eq('density', r, density(a, w1, b, w2, p))
    v.check('not negative', r >= 0)
    if p < a + b or p > a + b + w1 + w2:
        v.eq('zero outside the attainable interval', r, 0.0)
    v.eq('a second evaluation gives the same', f(p), r)

def ck_shape(v):
    (a, w1, b, w2, f) = intervals(v)
    m = w1 if w1 < w2 else w2
    M = w1 + w2 - m
    x0 = a + b; x1 = x0 + m; x2 = x0 + M; x3 = x0 + w1 + w2
    v.eq('zero at the lower end', f(x0), 0.0)
    v.eq('zero at the upper end', f(x3), 0.0)
    v.eq('plateau starts at one over the larger width', f(x1), 1.0 / M)
    v.eq('plateau ends at one over the larger width', f(x2), 1.0 / M)
    v.eq('integrates to one', (f(x0) + f(x1)) / 2 * (x1 - x0) + (f(x1) + f(x2)) / 2 * (x2 - x1)
         + (f(x2) + f(x3)) / 2 * (x3 - x2), 1.0)
    s = v.posnum('s'); v.assume(s < 1)
    k = v.choose('piece', [0, 1, 2])
    lo = [x0, x1, x2][k]; hi = [x1, x2, x3][k]
    v.eq('linear between the break points', f(lo + s * (hi - lo)), f(lo) + s * (f(hi) - f(lo)))
