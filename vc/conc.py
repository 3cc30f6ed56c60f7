"""Concrete execution of a contract: the same contract file against the real code (CPython, real numpy) on generated
inputs.  Used to cross-check the symbolic engine on every run, to find and replay failing inputs, and as the
(labelled) bounded stand-in where a function is out of the prover's reach."""
import sys, os, time, hashlib, copy, inspect, types, importlib, traceback, struct
import numpy as np

class Discard(Exception): pass

def _h(*a):
    return int(hashlib.md5(repr(a).encode()).hexdigest()[:12], 16)

_coef = {}
def coef(name, k):
    r = _coef.get((name, k))
    if r is None:
        h = _h(name, k)
        r = _coef[(name, k)] = ((h % 9973) / 9973.0 * 1.6 - 0.8, ((h // 9973) % 9949) / 9949.0 * 6.0)
    return r

class NoisePatch(object):
    """replaces the Gaussian generators of numpy.random by a prescribed stream"""
    def __init__(self, stream): self.stream = stream; self.n = 0
    def take(self, size):
        k = int(np.prod(size)) if size != () else 1
        out = np.zeros(k)
        for i in range(k):
            j = self.n + i
            out[i] = self.stream[j] if self.stream is not None and j < len(self.stream) else 0.0
        self.n += k
        return out.reshape(size) if size != () else float(out[0])
    def __enter__(self):
        r = np.random
        self.saved = dict((n, getattr(r, n)) for n in ('normal', 'randn', 'standard_normal', 'multivariate_normal'))
        sz = lambda s: () if s is None else (int(s),) if np.isscalar(s) else tuple(int(q) for q in s)
        def normal(loc=0.0, scale=1.0, size=None):
            if size is None: size = np.broadcast(np.asarray(loc), np.asarray(scale)).shape
            return loc + scale * self.take(sz(size))
        def mvn(mean, cov, size=None, **kw):
            mean = np.asarray(mean); cov = np.asarray(cov)
            if mean.ndim != 1 or cov.shape != (len(mean), len(mean)): raise ValueError('mean and cov must have same length')
            w, U = np.linalg.eigh((cov + cov.T) / 2)
            L = U * np.sqrt(np.maximum(w, 0))
            e = self.take(sz(size) + (len(mean),))
            return mean + e.dot(L.T)
        r.normal = normal; r.randn = lambda *s: self.take(tuple(s)); r.standard_normal = lambda size=None: self.take(sz(size))
        r.multivariate_normal = mvn
        return self
    def __exit__(self, *a):
        for n, f in self.saved.items(): setattr(np.random, n, f)

class UnifPatch(object):
    """uniform generators: prescribed stream (callable index -> value)"""
    def __init__(self, fn): self.fn = fn; self.n = 0; self.log = []
    def take(self, size):
        k = int(np.prod(size)) if size != () else 1
        out = np.array([self.fn(self.n + i) for i in range(k)], dtype=float)
        self.n += k
        r = out.reshape(size) if size != () else float(out[0])
        self.log.append(np.array(r))
        return r
    def __enter__(self):
        r = np.random
        self.saved = dict((n, getattr(r, n)) for n in ('uniform', 'rand', 'random_sample', 'random', 'choice'))
        sz = lambda s: () if s is None else (int(s),) if np.isscalar(s) else tuple(int(q) for q in s)
        r.uniform = lambda low=0.0, high=1.0, size=None: low + (high - low) * self.take(sz(size))
        r.rand = lambda *s: self.take(tuple(s))
        r.random_sample = lambda size=None: self.take(sz(size)); r.random = r.random_sample
        def choice(a, size=None, replace=True, p=None):
            a = np.arange(a) if np.isscalar(a) else np.asarray(a)
            p = np.ones(len(a)) / len(a) if p is None else np.asarray(p)
            c = np.cumsum(p); c = c / c[-1]
            return a[np.minimum(np.searchsorted(c, self.take(sz(size)), side='right'), len(a) - 1)]
        r.choice = choice
        return self
    def __exit__(self, *a):
        for n, f in self.saved.items(): setattr(np.random, n, f)

LOGDENS = ('g', 'lp', 'lpf', 'lps', 'l1', 'lq', 'gf', 'lx0', 'lpr', 'lpmax', 'lpm')
class CV(object):
    symbolic = False
    shared_ok = ()
    def __init__(self, seed, choices=(), maxdim=3):
        self.rng = np.random.RandomState(seed); self.seed = seed
        self.prefix = list(choices); self.taken = []; self.opts = []
        self.fails = []; self.nob = 0; self.inputs = []; self.labels = set()
        self._d = {}; self.maxdim = maxdim
        self.patches = []
        # magnitude of log-weights and of the model's log-densities (a common constant must not matter)
        self.dshift = float(self.rng.choice([0.0, 0.0, 0.0, -900.0, 900.0]))
    # ---- inputs
    def dim(self, name, lo=1, hi=None):
        if name in self._d: return self._d[name]
        top = max(lo, min(hi, lo + self.maxdim - 1) if hi is not None else lo + self.maxdim - 1)
        d = int(self.rng.randint(lo, top + 1))
        self._d[name] = d; self.inputs.append('%s=%d' % (name, d))
        return d
    def _rec(self, name, v): self.inputs.append((name, v))
    def arr(self, name, *shape):
        a = self.rng.normal(size=shape) * self.rng.choice([0.5, 1.0, 2.0])
        self._rec(name, a.copy()); return a
    mat = arr
    def lw(self, name, n):
        a = self.rng.normal(size=n) * self.rng.choice([0.3, 2.0, 6.0])
        self._rec(name, a.copy()); return a
    def _spd(self, n, batch, eps):
        out = np.zeros(tuple(batch) + (n, n))
        for ix in np.ndindex(*batch):
            X = self.rng.normal(size=(n, n)) * self.rng.choice([0.6, 1.0, 1.7])
            out[ix] = X.dot(X.T) + eps * np.eye(n)
        return out
    def spd(self, name, n, batch=()):
        a = self._spd(n, batch, 0.4); self._rec(name, a.copy()); return a
    def psd(self, name, n, batch=()):
        a = self._spd(n, batch, 0.1); self._rec(name, a.copy()); return a
    def pos(self, name, *shape):
        a = np.exp(self.rng.normal(size=shape)); self._rec(name, a.copy()); return a
    def weights(self, name, n):
        a = self.rng.uniform(size=n) ** 2
        if n > 1 and self.rng.uniform() < 0.4: a[self.rng.randint(n)] = 0.0
        if n > 2 and self.rng.uniform() < 0.3: a[self.rng.randint(n)] = 0.0
        if np.sum(a) <= 0: a[-1] = 0.7
        a = a * self.rng.choice([1.0, 1e-3, 30.0])
        self._rec(name, a.copy()); return a
    def ints(self, name, *shape):
        a = self.rng.randint(-5, 6, size=shape); self._rec(name, a.copy()); return a
    def idx(self, name, n, *shape):
        a = self.rng.randint(0, n, size=shape); self._rec(name, a.copy()); return a
    def num(self, name):
        a = float(self.rng.normal()); self._rec(name, a); return a
    def posnum(self, name):
        a = float(np.exp(self.rng.normal())); self._rec(name, a); return a
    def choose(self, name, options):
        options = list(options)
        k = len(self.taken)
        i = self.prefix[k] if k < len(self.prefix) else int(self.rng.randint(len(options)))
        i = i % len(options)
        self.taken.append(i); self.opts.append(len(options))
        self.inputs.append('%s=%r' % (name, options[i]))
        return options[i]
    def assume(self, c):
        if not np.all(c): raise Discard()
    def index(self, name, n):
        i = int(self.rng.randint(n)); self.inputs.append('%s=%d' % (name, i)); return i
    def tag(self, name): return float(self.rng.normal())
    def note(self, *a): self.inputs.append(' '.join(map(str, a)))
    def record(self, name, v): self._rec(name, copy.deepcopy(v))
    # ---- uninterpreted functions
    def _flat(self, x, out):
        if x is None: out.append(7.25)
        elif isinstance(x, str): out.append((_h(x) % 1000) / 100.0)
        elif isinstance(x, np.ndarray) and x.dtype == object:
            for y in x.ravel(): self._flat(y, out)
        elif isinstance(x, (np.ndarray, int, float, np.number, bool, np.bool_)):
            out.extend(np.asarray(x, dtype=float).ravel())
        elif isinstance(x, (list, tuple)):
            for y in x: self._flat(y, out)
        elif isinstance(x, dict):
            for k in sorted(x): self._flat(x[k], out)
        elif hasattr(x, 'part'): self._flat(x.part, out)
        else: raise TypeError('uninterpreted function of %r' % type(x))
    def _ufv(self, name, shape, flat):
        out = np.zeros(shape)
        flat = [f if abs(f) < 1e6 else 3.3 for f in flat]
        for ix in np.ndindex(*shape):
            s = 0.0; m = 0.0
            for k, f in enumerate(flat):
                w, b = coef((name, ix), k)
                s += np.sin((1.0 + w) * f + b) * (0.6 + 0.4 * w)
                m += np.cos((0.7 + w) * f - b)
            out[ix] = s + 0.9 * np.sin(1.7 * m)  # not additive: a wrong argument shared by all rows must not cancel
        return out + self.dshift if name in LOGDENS else out
    def uf(self, name, shape, *args):
        fl = []
        for a in args: self._flat(a, fl)
        r = self._ufv(name, tuple(shape or ()), fl)
        return r if shape else float(r)
    def rowuf(self, name, n, shape, rows, *args):
        sh = []
        for a in args: self._flat(a, sh)
        out = np.zeros((n,) + tuple(shape or ()))
        for i in range(n):
            fl = []
            for r in rows:
                if r is None: fl.append(7.25)
                else: self._flat(r[i], fl)
            out[i] = self._ufv(name, tuple(shape or ()), fl + sh)
        return out
    # ---- obligations
    def _fail(self, label, msg):
        self.fails.append((label, msg))
    def eq(self, label, a, b, tol=1e-6):
        self.nob += 1; self.labels.add(label)
        if a is b: return
        if isinstance(a, np.ndarray) and a.dtype == object: a = list(a)
        if isinstance(b, np.ndarray) and b.dtype == object: b = list(b)
        if isinstance(a, range): a = np.asarray(a)
        if isinstance(b, range): b = np.asarray(b)
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b): self._fail(label, 'length %d, expected %d' % (len(a), len(b))); return
            for k in range(len(a)): self.eq('%s[%d]' % (label, k), a[k], b[k], tol)
            return
        if a is None or b is None or isinstance(a, str) or isinstance(b, str):
            if not (type(a) == type(b) and a == b): self._fail(label, '%r, expected %r' % (a, b))
            return
        try: x = np.asarray(a, dtype=float); y = np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            self._fail(label, '%r, expected %r' % (a, b)); return
        if x.shape != y.shape:
            if x.size == 1 and y.size == 1: x = x.ravel(); y = y.ravel()
            else: self._fail(label, 'shape %s, expected %s' % (x.shape, y.shape)); return
        if not np.allclose(x, y, rtol=tol, atol=tol * max(1.0, float(np.max(np.abs(y))) if y.size and np.all(np.isfinite(y)) else 1.0) * 0.01 + 1e-9, equal_nan=False):
            self._fail(label, 'got %s, expected %s' % (np.array2string(x, threshold=30), np.array2string(y, threshold=30)))
    def approx(self, label, a, b, tol=1e-4): self.eq(label, a, b, tol)
    def le(self, label, a, b):
        self.nob += 1; self.labels.add(label)
        x = np.asarray(a, dtype=float); y = np.asarray(b, dtype=float)
        if not np.all(x <= y + 1e-9 * (1 + np.abs(y))): self._fail(label, '%s <= %s is false' % (x, y))
    def quad(self, *a): return 0.0
    def check(self, label, c):
        self.nob += 1; self.labels.add(label)
        if not np.all(c): self._fail(label, 'false')
    def fail(self, label): self.nob += 1; self._fail(label, 'reached')
    def same(self, label, a, b): self.check(label, a is b)
    def snap(self, x): return copy.deepcopy(x)
    def unchanged(self, label, x, s):
        self.nob += 1; self.labels.add(label)
        out = []
        self._cmp(label, x, s, out, set())
        if out: self._fail(label, '; '.join(out)[:800])
    def _cmp(self, label, x, s, out, seen):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, np.ndarray) and x.dtype == object:
            if len(x) != len(s): out.append(label + ' length'); return
            for k in range(len(x)): self._cmp('%s[%d]' % (label, k), x[k], s[k], out, seen)
        elif isinstance(x, np.ndarray):
            if not isinstance(s, np.ndarray) or x.shape != s.shape or not np.array_equal(x, s, equal_nan=True):
                out.append('%s changed from %s to %s' % (label, s, x))
        elif isinstance(x, (list, tuple)):
            if len(x) != len(s): out.append(label + ' length changed'); return
            for k in range(len(x)): self._cmp('%s[%d]' % (label, k), x[k], s[k], out, seen)
        elif isinstance(x, dict):
            if set(x) != set(s): out.append(label + ' keys changed'); return
            for k in x: self._cmp('%s[%s]' % (label, k), x[k], s[k], out, seen)
        elif isinstance(x, (int, float, str, bool, type(None), np.number)):
            if type(x) != type(s) or not (x == s or x != x): out.append('%s changed from %r to %r' % (label, s, x))
        elif isinstance(x, (types.FunctionType, types.MethodType, type, types.ModuleType, CV)): pass
        elif hasattr(x, '__dict__'):
            for k in sorted(set(x.__dict__) | set(getattr(s, '__dict__', {}))):
                if k not in x.__dict__ or k not in s.__dict__: out.append('%s.%s attribute set changed' % (label, k)); continue
                self._cmp(label + '.' + k, x.__dict__[k], s.__dict__[k], out, seen)
    def _bufs(self, x, acc, seen):
        if id(x) in seen: return
        seen.add(id(x))
        if isinstance(x, np.ndarray) and x.dtype == object:
            for y in x: self._bufs(y, acc, seen)
        elif isinstance(x, np.ndarray): acc.append(x)
        elif isinstance(x, (list, tuple)):
            for y in x: self._bufs(y, acc, seen)
        elif isinstance(x, dict):
            for y in x.values(): self._bufs(y, acc, seen)
        elif isinstance(x, (types.FunctionType, types.MethodType, type, types.ModuleType, CV)): pass
        elif hasattr(x, '__dict__') and type(x).__name__ not in self.shared_ok:
            for y in x.__dict__.values(): self._bufs(y, acc, seen)
    def disjoint(self, label, a, b):
        self.nob += 1; self.labels.add(label)
        x = []; y = []
        self._bufs(a, x, set()); self._bufs(b, y, set())
        for p in x:
            for q in y:
                if p.size and q.size and np.shares_memory(p, q): self._fail(label, 'shared storage'); return
    def raises(self, fn, *classes):
        try: fn()
        except Exception as e: return type(e).__name__ in classes or not classes
        return False
    # ---- distributions
    def moments(self, f):
        with NoisePatch(None) as p: mean = np.array(f(), dtype=float)
        n = p.n
        J = np.zeros(mean.shape + (n,))
        for k in range(n):
            e = np.zeros(n); e[k] = 1.0
            with NoisePatch(e): J[..., k] = np.array(f(), dtype=float) - mean
        e = self.rng.normal(size=n)
        with NoisePatch(e): x = np.array(f(), dtype=float)
        if not np.allclose(x, mean + J.dot(e), atol=1e-8): self._fail('affine in the noise', 'sampled value is not an affine function of Gaussian noise')
        return mean, np.tensordot(J, J, axes=(-1, -1))
    def uniforms(self, f):
        st = np.random.RandomState(self.rng.randint(2 ** 31))
        vals = {}
        def g(i):
            if i not in vals: vals[i] = st.uniform()
            return vals[i]
        with UnifPatch(g) as p: x = f()
        return x, [np.asarray(a) for a in p.log]
    def draws(self, fn):
        """context in which the uniform generators return fn(0), fn(1), ..."""
        return UnifPatch(fn)
    def categorical(self, label, f, probs):
        self.nob += 1; self.labels.add(label)
        probs = np.asarray(probs, dtype=float)
        K = 400
        cnt = np.zeros(probs.shape)
        for k in range(K):
            u = (k + 0.5) / K
            with UnifPatch(lambda i: u) as p: x = np.asarray(f())
            if k == 0: nd = p.n
            x = x.reshape(-1)
            if len(x) != probs.shape[0]: self._fail(label, 'shape'); return
            for m in range(len(x)):
                if not (0 <= x[m] < probs.shape[1]) or int(x[m]) != x[m]: self._fail(label, 'invalid index %s' % x[m]); return
                cnt[m, int(x[m])] += 1.0 / K
        # rows must react to their own draw only
        if probs.shape[0] > 1:
            st = np.random.RandomState(self.rng.randint(2 ** 31))
            us = st.uniform(size=max(nd, 1))
            with UnifPatch(lambda i: us[i % len(us)]): x = np.asarray(f()).reshape(-1)
            seen = []
            for q in range(nd):
                u2 = us.copy(); ch = set()
                for val in (0.003, 0.2, 0.4, 0.6, 0.8, 0.997):
                    u2[q] = val
                    with UnifPatch(lambda i: u2[i % len(u2)]): y = np.asarray(f()).reshape(-1)
                    ch |= set(np.nonzero(y != x)[0])
                seen.append(ch)
            for q in range(nd):
                for r in range(q):
                    if seen[q] & seen[r]: self._fail(label, 'draws of different rows are not independent'); return
                if len(seen[q]) > 1: self._fail(label, 'one draw decides several rows'); return
        if np.max(np.abs(cnt - probs)) > 2.5 / K * 1.01:
            self._fail(label, 'selection probabilities %s, expected %s' % (cnt, probs))
    def conditional(self, label, f):
        """f() -> (indices (M,), probs: row j -> probabilities (n,)): row j is drawn, independently of the other rows and given
        everything its probabilities depend on, from probs(j)"""
        self.nob += 1; self.labels.add(label)
        st = np.random.RandomState(self.rng.randint(2 ** 31))
        us = list(st.uniform(size=400))
        def run(u):
            with UnifPatch(lambda i: u[i % len(u)]) as p:
                x, pr = f()
                x = np.asarray(x).reshape(-1)
                P = np.array([np.asarray(pr(j), dtype=float).reshape(-1) for j in range(len(x))])
            return x, P, p.n
        x, P, nd = run(us)
        n = P.shape[1]
        if not np.all((x >= 0) & (x < n) & (x == np.floor(x))): self._fail(label, 'invalid index %s' % x); return
        if nd > 100: self._fail(label, 'too many draws'); return
        own = {}
        for q in range(nd):
            ch = set(); other = False
            for val in (0.003, 0.2, 0.4, 0.6, 0.8, 0.997):
                u = list(us); u[q] = val
                y, Q, _ = run(u)
                if not np.allclose(P, Q, atol=1e-9): other = True; break
                ch |= set(np.nonzero(y != x)[0])
            if other: continue
            if len(ch) > 1: self._fail(label, 'one draw decides several rows'); return
            for m in ch: own.setdefault(m, []).append(q)
        K = 200
        for m in range(len(x)):
            qs = own.get(m, [])
            if len(qs) > 1: self._fail(label, 'several draws decide one row'); return
            cnt = np.zeros(n)
            if not qs: cnt[int(x[m])] = 1.0
            for k in range(K if qs else 0):
                u = list(us); u[qs[0]] = (k + 0.5) / K
                y, _, _ = run(u)
                if not 0 <= y[m] < n: self._fail(label, 'invalid index %s' % y); return
                cnt[int(y[m])] += 1.0 / K
            lim = 2.5 / K * 1.01 if qs else 0.21
            if np.max(np.abs(cnt - P[m])) > lim:
                self._fail(label, 'selection probabilities %s, expected %s' % (cnt, P[m])); return
    def replace(self, qual, fn): pass
    def cut(self, qual, spec): pass
    def unsupported(self, why): pass
    def soft_selections(self): pass
    def sampling(self): pass
    def asidx(self, x): return np.asarray(x).astype(int)
    def patch(self, cls, name, fn):
        """override a method for the duration of this run"""
        old = cls.__dict__.get(name)
        if isinstance(cls, types.ModuleType) and cls.__name__.startswith("pyparticleest") and isinstance(old, types.FunctionType) and old.__closure__ is None and isinstance(fn, types.FunctionType):
            # in place, so that every reference to the function is affected
            sig = inspect.signature(old)
            hook = '_vc_%s_%d' % (name, len(self.patches))
            old.__globals__[hook] = fn
            d = {}
            exec('def %s(%s): return %s(%s)' % (name, ', '.join(sig.parameters), hook, ', '.join(sig.parameters)), d)
            self.patches.append((old, '__code__', old.__code__))
            old.__code__ = d[name].__code__
            return
        self.patches.append((cls, name, old))
        setattr(cls, name, fn)
    def unpatch(self):
        for cls, name, old in reversed(self.patches):
            if old is None: delattr(cls, name)
            else: setattr(cls, name, old)
        self.patches = []
    def lowvar(self, label, f, probs, n, pick=None):
        """f() draws n indices by low-variance resampling with the given probabilities"""
        self.nob += 1; self.labels.add(label)
        p = np.asarray(probs, dtype=float).ravel()
        us = [0.001, 0.25, 0.5, 0.75, 0.999] + list(self.rng.uniform(1e-9, 1.0, size=12))
        x = None
        for u in us:
            with UnifPatch(lambda i: u): x = f()
            y = x if pick is None else pick(x)
            a = np.asarray(y)
            if a.shape != (n,): self._fail(label, 'shape %s, expected (%d,)' % (a.shape, n)); return x
            if not np.all((a >= 0) & (a < len(p)) & (a == np.floor(a))): self._fail(label, 'invalid index in %s for %d candidates (draw %g)' % (a, len(p), u)); return x
            a = a.astype(int)
            if np.any(np.diff(a) < 0): self._fail(label, 'not ordered: %s' % a); return x
            cnt = np.bincount(a, minlength=len(p))
            if np.any(np.abs(cnt - n * p) >= 1 + 1e-7): self._fail(label, 'counts %s, expected near %s (draw %g)' % (cnt, n * p, u)); return x
        # the draw decides: each index is selected n*p times on average
        K = 200
        acc = np.zeros(len(p))
        for k in range(K):
            with UnifPatch(lambda i: (k + 0.5) / K): y = f()
            y = y if pick is None else pick(y)
            acc += np.bincount(np.asarray(y).astype(int), minlength=len(p)) / float(K)
        if np.any(np.abs(acc - n * p) > 3.0 * n / K + 1e-9): self._fail(label, 'average counts %s, expected %s' % (acc, n * p))
        return f() if x is None else x
    def derivative(self, f):
        """(f(0), f'(0)) of a function of one real number (central differences; the run is discarded where they are not accurate)"""
        d = []
        for h in (1e-3, 5e-4, 2.5e-4): d.append((np.asarray(f(h), dtype=float) - np.asarray(f(-h), dtype=float)) / (2 * h))
        (a, b) = ((4 * d[1] - d[0]) / 3, (4 * d[2] - d[1]) / 3)
        if np.any(np.abs(a - b) > 1e-7 * (1 + np.abs(b))): raise Discard()
        return np.asarray(f(0.0), dtype=float), (16 * b - a) / 15
    def deriv_check(self, label, f, theta, grad, tol=1e-4):
        """grad must be the gradient of the scalar f at theta (central differences)"""
        self.nob += 1; self.labels.add(label)
        theta = np.asarray(theta, dtype=float)
        g = np.zeros(len(theta))
        for k in range(len(theta)):
            d = []
            for h in (1e-3, 5e-4):
                e = np.zeros(len(theta)); e[k] = h
                d.append((f(theta + e) - f(theta - e)) / (2 * h))
            g[k] = float(np.asarray((4 * d[1] - d[0]) / 3).ravel()[0])
        self.eq(label, np.asarray(grad, dtype=float).ravel(), g, tol)

# ------------------------------------------------------------------
class Loader(object):
    def __init__(self, root, overrides):
        self.root = root
        sys.dont_write_bytecode = True
        sys.path[:] = [p for p in sys.path if '/opt/vp' not in p]
        if sys.path[0] != root: sys.path.insert(0, root)
        for name, src in overrides.items():
            m = types.ModuleType(name)
            sys.modules[name] = m
            exec(compile(src, name + '.pyx->py', 'exec'), m.__dict__)

def load_contracts(path, name):
    src = open(path).read()
    m = types.ModuleType(name)
    m.__file__ = path
    sys.modules[name] = m
    exec(compile(src, path, 'exec'), m.__dict__)
    return m, src

def run_once(fn, seed, choices=(), maxdim=3):
    v = CV(seed, choices, maxdim)
    np.random.seed(seed % (2 ** 31))
    st = 'ok'
    try:
        with np.errstate(all='ignore'):
            fn(v)
    except Discard: st = 'discard'
    except Exception as e:
        tb = [t for t in traceback.extract_tb(e.__traceback__)]
        where = ' <- '.join('%s:%d' % (os.path.basename(t[0]), t[1]) for t in reversed(tb[-4:]))
        v.nob += 1
        v._fail('no exception', 'raises %s: %s (%s)' % (type(e).__name__, e, where))
    finally: v.unpatch()
    if v.fails: st = 'fail'
    return v, st

def run_contract(fn, seed, nruns, tmax, maxcombos=200):
    """systematic over the choice combinations, then random"""
    t0 = time.time()
    res = dict(evaluations=0, obligations=0, discards=0, fails=[], labels=set(), combos=set(), samples=[])
    pend = [[]]
    seen = set()
    k = 0
    def one(choices):
        nonlocal k
        s = (seed * 1000003 + k * 7919 + 17) % (2 ** 31)
        k += 1
        v, st = run_once(fn, s, choices)
        if st == 'discard': res['discards'] += 1
        else:
            res['evaluations'] += 1; res['obligations'] += v.nob
            res['combos'].add((tuple(v.taken), tuple(sorted(v._d.items()))))
            res['labels'] |= v.labels
        if v.fails: res['fails'].append((s, list(v.taken), v.fails, v.inputs))
        if len(res['samples']) < 1: res['samples'].append(dict(seed=s, inputs=[i if isinstance(i, str) else '%s=%s' % (i[0], np.array2string(np.asarray(i[1]), threshold=8, precision=3).replace('\n', ' ') if not isinstance(i[1], (list, tuple, dict)) else '...') for i in v.inputs][:12]))
        return v
    while pend and len(seen) < maxcombos and time.time() - t0 < tmax and len(res['fails']) < 12:
        pre = pend.pop()
        v = one(pre)
        seen.add(tuple(v.taken))
        for j in range(len(pre), len(v.taken)):
            for o in range(v.opts[j]):
                if o != v.taken[j]:
                    pend.append(v.taken[:j] + [o])
    while k < nruns and time.time() - t0 < tmax and len(res['fails']) < 12: one(())
    res['time'] = time.time() - t0
    return res
