"""Symbolic executor for the Python subset used by the repository.

It runs the real source (re-read from /repo on every run) over symbolic values.  Branches on
undecided conditions fork the path (re-execution with recorded decisions); inside loops over a
symbolic range they are merged.  Loops over a symbolic range are summarised by an invariant that
is inferred from the loop body's effect at a generic iteration and checked for it (map over an
axis / accumulation / last value); anything else is reported as unsupported."""
import ast, operator, os
from fractions import Fraction as Q
from . import terms as T
from . import arrays as A
from . import npmodel as N
from .arrays import Arr, Seq, MaskSel, PyExc, IX, toarr, HEAP, dim, is1
from .npmodel import Mod, ObjArr, SymObjArr, DType
from .terms import Expr, Cond, Unsupported, expr, ZERO, ONE, cmp_le, cmp_lt, cmp_eq, cnot, atom, gensym, subst

_AST = {}
def cell_ix(shape):
    """index of an arbitrary cell; the only index of an axis of length one is 0"""
    return [ZERO if expr(d).key == ONE.key else IX[k] for k, d in enumerate(shape)]

class Poison(object):
    def __init__(self, why): self.why = why
class Unbound(object): pass
UNBOUND = Unbound()

class SymRange(object):
    def __init__(self, lo, hi): self.lo = expr(lo); self.hi = expr(hi); self.rev = False
class SymIter(object):
    """iteration over n elements, elem(i)"""
    def __init__(self, n, elem): self.n = dim(n); self.elem = elem

class Func(object):
    def __init__(self, node, mod, defaults, kwdefaults, closure, cls=None, name=None):
        self.node = node; self.mod = mod; self.defaults = defaults; self.kwd = kwdefaults
        self.closure = closure; self.cls = cls; self.name = name or getattr(node, 'name', '<lambda>')
        self.kind = None
class Bound(object):
    def __init__(self, f, self_): self.f = f; self.self_ = self_
class Class(object):
    def __init__(self, name, bases, d, mod):
        self.name = name; self.bases = bases; self.d = d; self.mod = mod
        self.mro = self._mro()
    def _mro(self):
        seqs = [list(b.mro) for b in self.bases if isinstance(b, Class)] + [[b for b in self.bases if isinstance(b, Class)]]
        out = [self]
        while any(seqs):
            for s in seqs:
                if s and not any(s[0] in t[1:] for t in seqs):
                    h = s[0]; break
            else: raise Unsupported('mro')
            out.append(h)
            for s in seqs:
                if s and s[0] is h: s.pop(0)
        return out
    def lookup(self, n, after=None):
        it = self.mro
        if after is not None: it = it[it.index(after) + 1:]
        for c in it:
            if n in c.d: return c.d[n], c
        return None, None
class Obj(object):
    def __init__(self, cls): self.cls = cls; self.a = {}; self.serial = next(A._ids)
    def _restore(self, f, old):
        if old is UNBOUND: self.a.pop(f, None)
        else: self.a[f] = old
    def _get(self, f): return self.a.get(f, UNBOUND)
    def set(self, f, v):
        HEAP.log.append((self, f, self.a.get(f, UNBOUND)))
        self.a[f] = v
class PyList(list):
    """list with write log; may become a symbolic sequence (field seq)"""
    def __init__(self, *a):
        list.__init__(self, *a); self.serial = next(A._ids); self.seq = None
    def _get(self, f): return self.seq if self.seq is not None else list(self)
    def _restore(self, f, old):
        if isinstance(old, (Seq, Poison)): self.seq = old; self[:] = []
        else: self.seq = None; self[:] = old
    def touch(self): HEAP.log.append((self, 'items', self._get('items')))
    __hash__ = object.__hash__
class PyDict(dict):
    def __init__(self, *a):
        dict.__init__(self, *a); self.serial = next(A._ids)
    def _get(self, f): return dict(self)
    def _restore(self, f, old):
        self.clear(); self.update(old)
    def touch(self): HEAP.log.append((self, 'items', dict(self)))
    __hash__ = object.__hash__
class Locals(PyDict):
    """locals as seen by a loop contract; a name the function does not have puts it out of reach"""
    def __missing__(self, k): raise Unsupported('loop contract: no local %s' % k)
class Stub(object):
    """external object: attribute -> python callable(interp,*args,**kw) or value"""
    def __init__(self, name, table): self.name = name; self.table = table
class ExcVal(object):
    def __init__(self, cls, args): self.cls = cls; self.args = args

def outer_loops(body):
    """loops of a function that are not inside another loop"""
    r = []
    for q in body:
        if isinstance(q, (ast.For, ast.While)): r.append(q)
        elif not isinstance(q, (ast.FunctionDef, ast.ClassDef)):
            for f in ('body', 'orelse', 'finalbody', 'handlers'):
                r += outer_loops(getattr(q, f, None) or [])
    return r

class Frame(object):
    def __init__(self, mod, func, env, closure):
        self.mod = mod; self.func = func; self.env = env; self.closure = closure; self.serial = next(A._ids)
    def _get(self, f): return self.env.get(f, UNBOUND)
    def _restore(self, f, old):
        if old is UNBOUND: self.env.pop(f, None)
        else: self.env[f] = old
    def set(self, f, v):
        HEAP.log.append((self, f, self.env.get(f, UNBOUND)))
        self.env[f] = v

class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Infeasible(Exception): pass
class Cnt(Exception): pass
class Done(Exception):
    """end of this path: an arbitrary iteration has been checked against the loop invariant"""
class Fork(Exception):
    """need to restart this path with a dimension fixed"""

def freeze(x):
    """copy of a symbolic sequence, evaluated now (later writes to the original do not show)"""
    try: a = A.seq_to_arr(x)
    except (Unsupported, PyExc):
        r = Seq(x.n, lambda i: deep_copy(x.fn(i))); r.lazy = True
        return r
    r = Seq(x.n, lambda i: A.getitem(a, (expr(i),)))
    r.backing = a
    return r
def deep_copy(x, memo=None):
    if memo is None: memo = {}
    if id(x) in memo: return memo[id(x)]
    if isinstance(x, Arr): r = x.copy()
    elif isinstance(x, PyList) or isinstance(x, list):
        r = PyList(); memo[id(x)] = r
        r.extend(deep_copy(v, memo) for v in x)
    elif isinstance(x, tuple): r = tuple(deep_copy(v, memo) for v in x)
    elif isinstance(x, dict):
        r = PyDict(); memo[id(x)] = r
        for k, v in x.items(): r[k] = deep_copy(v, memo)
    elif isinstance(x, Obj):
        r = Obj(x.cls); memo[id(x)] = r
        r.a = dict((k, deep_copy(v, memo)) for k, v in x.a.items())
    elif isinstance(x, ObjArr):
        r = ObjArr([deep_copy(v, memo) for v in x.items])
    elif isinstance(x, Seq):
        r = freeze(x)
    else: r = x
    memo[id(x)] = r
    return r
def shallow_copy(x):
    if isinstance(x, Arr): return x.copy()
    if isinstance(x, list): return PyList(x)
    if isinstance(x, dict): return PyDict(x)
    if isinstance(x, Obj):
        r = Obj(x.cls); r.a = dict(x.a); return r
    return x

class Path(object):
    """decisions taken on the current execution"""
    def __init__(self, prefix=(), dimsub=None, dimne=()):
        self.prefix = list(prefix); self.taken = []; self.alts = []
        self.dimsub = dict(dimsub or {}); self.dimne = list(dimne)
        self.conds = []

class Interp(object):
    def __init__(self, root, pyx=None, overrides=None):
        self.root = root
        self.mods = {}
        self.lib = N.build()
        self.path = Path()
        self.merge = []          # stack of loop-variable names (merge mode when non-empty)
        self.depth = 0
        self.overrides = overrides or {}   # module name -> source text
        self.funcs_entered = {}
        self.stmts = 0
        self.intercept = {}      # qualified function name -> python callable(interp, args, kw)
        self.fork_hook = None
        self.cuts = {}           # qualified function name -> loop contract (Obj), replaced by True once used
        self.branch = None

    # ------------------------------------------------------------ modules
    def module(self, name):
        if name in self.mods: return self.mods[name]
        if name in self.lib: return self.lib[name]
        if name in self.overrides:
            src = self.overrides[name]; fn = name
        else:
            p = os.path.join(self.root, name.replace('.', '/'))
            if os.path.isdir(p): fn = os.path.join(p, '__init__.py')
            else: fn = p + '.py'
            if not os.path.exists(fn): return None
            src = open(fn).read()
        m = Mod(name, {})
        self.mods[name] = m
        m.d['__name__'] = name
        try:
            tree = _AST.get((name, src))
            if tree is None: tree = _AST[(name, src)] = ast.parse(src)
        except SyntaxError as e:
            raise Unsupported('syntax error in %s' % name)
        fr = Frame(m, None, m.d, ())
        self.block(tree.body, fr)
        return m

    def imp(self, name):
        """import dotted name, return leaf module"""
        m = self.module(name)
        if m is None:
            if name.split('.')[0] in ('pyparticleest', 'contracts'): raise PyExc('ImportError', name)
            m = Mod(name, {})
        return m

    # ------------------------------------------------------------ statements
    def block(self, body, fr):
        for s in body: self.stmt(s, fr)

    def stmt(self, s, fr):
        self.stmts += 1
        if self.stmts > 400000: raise Unsupported('too many statements')
        k = type(s).__name__
        f = getattr(self, 's_' + k, None)
        if f is None: raise Unsupported('statement ' + k)
        self.line = (fr.mod.name, s.lineno)
        return f(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, fr)
    def s_Pass(self, s, fr): pass
    def s_Return(self, s, fr):
        raise Ret(self.ev(s.value, fr) if s.value is not None else None)
    def s_Break(self, s, fr): raise Brk()
    def s_Continue(self, s, fr): raise Cnt()
    def s_Global(self, s, fr): raise Unsupported('global')
    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name): fr.set(t.id, UNBOUND); fr.env.pop(t.id, None)
            else: raise Unsupported('del')
    def s_Import(self, s, fr):
        for a in s.names:
            m = self.imp(a.name)
            if a.asname: fr.set(a.asname, m)
            else:
                top = a.name.split('.')[0]
                if '.' in a.name and top not in self.lib:
                    cur = fr.env.get(top)
                    if not isinstance(cur, Mod): cur = self.imp(top)
                    q = cur
                    parts = a.name.split('.')
                    for i in range(1, len(parts)):
                        sub = self.imp('.'.join(parts[:i + 1]))
                        q.d.setdefault(parts[i], sub)
                        q = sub
                    fr.set(top, cur)
                else:
                    fr.set(top, self.lib.get(top) or m)
    def s_ImportFrom(self, s, fr):
        m = self.module(s.module) if s.module else None
        for a in s.names:
            if a.name == '*': raise Unsupported('import *')
            if m is not None and a.name in m.d: v = m.d[a.name]
            else:
                sub = self.module((s.module or '') + '.' + a.name)
                if sub is None:
                    if s.module in ('builtins', '__future__', 'exceptions', 'abc', 'functools', 'itertools'):
                        v = {'xrange': range}.get(a.name, Stub(a.name, {}))
                    else: v = Stub(s.module + '.' + a.name, {})
                else: v = sub
            fr.set(a.asname or a.name, v)
    def s_FunctionDef(self, s, fr):
        fr.set(s.name, self.mkfunc(s, fr))
    def mkfunc(self, s, fr, name=None):
        d = [self.ev(x, fr) for x in s.args.defaults]
        kd = [self.ev(x, fr) if x is not None else UNBOUND for x in s.args.kw_defaults]
        clos = (() if fr.func is None else (fr,) + tuple(fr.closure))
        f = Func(s, fr.mod, d, kd, clos, name=name)
        for dec in getattr(s, 'decorator_list', []):
            nm = dec.attr if isinstance(dec, ast.Attribute) else dec.id if isinstance(dec, ast.Name) else None
            if nm in ('staticmethod', 'classmethod', 'property'): f.kind = nm
            elif nm in ('abstractmethod',): pass
            elif isinstance(dec, ast.Call): pass    # cython.boundscheck(False) etc.
            else: raise Unsupported('decorator %s' % nm)
        return f
    def s_ClassDef(self, s, fr):
        bases = [self.ev(b, fr) for b in s.bases]
        d = {}
        sub = Frame(fr.mod, fr.func, d, fr.closure)
        c = Class.__new__(Class)
        for st in s.body: self.stmt(st, sub)
        cl = Class(s.name, [b for b in bases if isinstance(b, Class)], d, fr.mod)
        for v in d.values():
            if isinstance(v, Func): v.cls = cl
        fr.set(s.name, cl)
    def s_Assign(self, s, fr):
        v = self.ev(s.value, fr)
        for t in s.targets: self.assign(t, v, fr)
    def s_AnnAssign(self, s, fr):
        if s.value is not None: self.assign(s.target, self.ev(s.value, fr), fr)
    def assign(self, t, v, fr):
        if isinstance(t, ast.Name): fr.set(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = self.items(v)
            if len(vs) != len(t.elts): raise PyExc('ValueError', 'unpack')
            for a, b in zip(t.elts, vs): self.assign(a, b, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, fr), self.index(t.slice, fr), v)
        else: raise Unsupported('assignment target')
    def items(self, v):
        if isinstance(v, (tuple, list)): return list(v)
        if isinstance(v, ObjArr): return list(v.items)
        if isinstance(v, range): return list(v)
        if isinstance(v, dict): return list(v)
        if isinstance(v, str): return list(v)
        if isinstance(v, Arr):
            if v.ndim == 0: raise PyExc('TypeError', 'iteration over a 0-d array')
            if isinstance(v.shape[0], int): return [A.getitem(v, k) for k in range(v.shape[0])]
        if isinstance(v, Seq) and isinstance(v.n, int): return [v[k] for k in range(v.n)]
        raise Unsupported('concrete sequence expected, got %s' % type(v).__name__)
    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.name(t.id, fr)
            r = self.augop(s.op, cur, self.ev(s.value, fr))
            if r is not cur: fr.set(t.id, r)
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.ev(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, fr)
            ix = self.index(t.slice, fr)
            cur = self.getitem(o, ix)
            r = self.augop(s.op, cur, self.ev(s.value, fr))
            self.setitem(o, ix, r)
    def augop(self, op, cur, v):
        if isinstance(cur, Arr) and cur.ndim >= 0 and not isinstance(cur, Expr):
            r = self.binop(op, cur, v)
            if isinstance(r, Expr): r = toarr(r)
            if isinstance(r, Arr):
                if len(r.shape) != len(cur.shape) or not all(A.same_dim(x, y) for x, y in zip(r.shape, cur.shape)):
                    raise PyExc('ValueError', 'non-broadcastable output operand with shape %s' % (cur.shape,))
            if cur.dtype == 'i' and isinstance(r, Arr) and r.dtype == 'f':
                raise PyExc('UFuncTypeError', 'cannot cast output from float to int')
            A.assign(cur, r)
            return cur
        if isinstance(cur, PyList) and isinstance(op, ast.Add):
            cur.touch(); cur.extend(self.items(v)); return cur
        return self.binop(op, cur, v)
    def s_Assert(self, s, fr):
        c = self.truth(self.ev(s.test, fr))
        if not c: raise PyExc('AssertionError', ast.dump(s.test)[:60])
    def s_Raise(self, s, fr):
        if s.exc is None: raise PyExc('re-raise')
        v = self.ev(s.exc, fr)
        if isinstance(v, ExcVal): raise PyExc(v.cls, str(v.args))
        if isinstance(v, str): raise PyExc(v)
        raise PyExc('Exception')
    def s_Try(self, s, fr):
        if self.merge: pass
        try:
            self.block(s.body, fr)
        except PyExc as e:
            for h in s.handlers:
                if h.type is None or self.exc_match(self.ev(h.type, fr), e.cls):
                    if h.name: fr.set(h.name, ExcVal(e.cls, (e.msg,)))
                    self.block(h.body, fr)
                    break
            else:
                self.block(s.finalbody, fr)
                raise
        else:
            self.block(s.orelse, fr)
        self.block(s.finalbody, fr)
    def exc_match(self, t, cls):
        if isinstance(t, tuple): return any(self.exc_match(x, cls) for x in t)
        t = t if isinstance(t, str) else getattr(t, '__name__', str(t))
        return t in (cls, 'Exception', 'BaseException') or (t == 'ValueError' and cls in ('LinAlgError', 'AxisError')) \
            or (t == 'ArithmeticError' and cls == 'ZeroDivisionError') or (t == 'LookupError' and cls in ('IndexError', 'KeyError'))
    def s_With(self, s, fr):
        raise Unsupported('with')

    def s_If(self, s, fr):
        c = self.ev(s.test, fr)
        c = self.tcond(c)
        if isinstance(c, Cond):
            r = T.get_ctx().decide(c)
            if r is None:
                if self.merge and self.loopdep(c):
                    return self.merge_if(c, s, fr)
                r = self.fork(c)
            c = r
        if c: self.block(s.body, fr)
        else: self.block(s.orelse, fr)

    def loopdep(self, c):
        return any(v in c.fv for v in self.merge) or any(f.startswith('PRE') for f in c.fv) or 'PRE!' in c.key or True

    def merge_if(self, c, s, fr):
        """execute both branches and merge"""
        ctx = T.get_ctx()
        m0 = HEAP.mark()
        outs = []
        for cond, body in ((c, s.body), (cnot(c), s.orelse)):
            ctx.push(cond)
            try:
                exit_ = None
                try:
                    self.block(body, fr)
                except Cnt: exit_ = 'continue'
                except (Ret, Brk): raise Unsupported('return/break under a per-element condition')
                except PyExc as e: raise Unsupported('exception under a per-element condition: %s' % e)
            finally:
                ctx.pop()
            if exit_: raise Unsupported('continue under a per-element condition')
            ch = {}
            for obj, field, old in HEAP.log[m0:]:
                ch[(id(obj), field)] = (obj, field)
            vals = dict((kk, (o, f, o._get(f))) for kk, (o, f) in ch.items())
            HEAP.rollback(m0)
            outs.append(vals)
        keys = list(outs[0]) + [k for k in outs[1] if k not in outs[0]]
        finals = []
        for kk in keys:
            o, f = (outs[0].get(kk) or outs[1].get(kk))[:2]
            pre = o._get(f)
            va = outs[0][kk][2] if kk in outs[0] else pre
            vb = outs[1][kk][2] if kk in outs[1] else pre
            finals.append((o, f, self.merge_val(c, va, vb)))
        for o, f, v in finals:
            HEAP.log.append((o, f, o._get(f)))
            o._restore(f, v)

    def merge_val(self, c, a, b):
        if a is b: return a
        if isinstance(a, Poison) or isinstance(b, Poison): return Poison('merge')
        if a is UNBOUND or b is UNBOUND: return Poison('maybe unbound')
        if isinstance(a, (int, Q, Expr)) and isinstance(b, (int, Q, Expr)) and not isinstance(a, bool):
            return T.ite(c, expr(a), expr(b))
        if isinstance(a, Arr) and isinstance(b, Arr) and a.ndim == b.ndim and all(A.same_dim(x, y) for x, y in zip(a.shape, b.shape)):
            return Arr.new(a.shape, T.ite(c, a.body, b.body), A.rdt(a.dtype, b.dtype))
        if isinstance(a, Cond) or isinstance(b, Cond) or isinstance(a, bool):
            ca = self.tcond(a); cb = self.tcond(b)
            ca = ca if isinstance(ca, Cond) else (T.CT if ca else T.CF)
            cb = cb if isinstance(cb, Cond) else (T.CT if cb else T.CF)
            return T.cor(T.cand(c, ca), T.cand(cnot(c), cb))
        if type(a) == type(b) and isinstance(a, (str, type(None))) and a == b: return a
        if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
            return tuple(self.merge_val(c, x, y) for x, y in zip(a, b))
        return Poison('merge of %s and %s' % (type(a).__name__, type(b).__name__))

    def fork(self, c):
        """choose a truth value for an undecided condition (path forking)"""
        p = self.path
        if self.fork_hook:
            r = self.fork_hook(c)
            if r is not None: return r
        k = len(p.taken)
        if k < len(p.prefix):
            v = p.prefix[k]
        else:
            v = True
            p.alts.append(p.prefix[:k] + [x for x in p.taken[len(p.prefix):k]] + [False])
        p.taken.append(v)
        if len(p.taken) > 24: raise Unsupported('too many path decisions')
        cc = c if v else cnot(c)
        p.conds.append(cc)
        T.get_ctx().push(cc)
        if cc.kind == 'eq':
            for nm in cc.fv:
                if nm in A.SELN and T.get_ctx().decide(T.cmp_eq(T.sym(nm, True), ZERO)) is True:
                    # nothing is selected: the mask is false everywhere (instance for the current array index)
                    e = A.SELN[nm]
                    T.get_ctx().push(A.none_selected(e, IX[0]))
        return v

    def truth(self, v):
        c = self.tcond(v)
        if isinstance(c, Cond):
            r = T.get_ctx().decide(c)
            if r is None:
                if self.merge and False: raise Unsupported('undecided condition in a per-element loop')
                r = self.fork(c)
            return r
        return bool(c)

    def tcond(self, v):
        """value -> bool or Cond"""
        if isinstance(v, (bool, Cond)): return v
        if v is None: return False
        if isinstance(v, (int, Q)): return v != 0
        if isinstance(v, Expr):
            if v.isconst(): return v.constval() != 0
            a = T._as_atom(v)
            if a is not None and a.kind == 'ind': return a.args[0]
            return T.cmp_ne(v, ZERO)
        if isinstance(v, Arr):
            if v.ndim == 0 or all(is1(s) for s in v.shape): return self.tcond(v.scalar())
            if v.size == 0: return False
            raise PyExc('ValueError', 'The truth value of an array with more than one element is ambiguous')
        if isinstance(v, (list, tuple, dict, str)): return len(v) > 0
        if isinstance(v, ObjArr):
            if len(v.items) == 1: return self.tcond(v.items[0])
            if not v.items: return False
            raise PyExc('ValueError', 'The truth value of an array with more than one element is ambiguous')
        if isinstance(v, Seq): return T.cmp_lt(ZERO, expr(v.n))
        if isinstance(v, Poison): raise Unsupported('use of a value that depends on loop order: ' + v.why)
        return True

    # ------------------------------------------------------------ loops
    def iterate(self, v):
        """-> list (concrete) or SymIter"""
        if isinstance(v, SymRange):
            n = v.hi - v.lo
            if n.isconst():
                ks = [v.lo + k for k in range(max(0, int(n.constval())))]
                ks = [int(k.constval()) if k.isconst() else k for k in ks]
                return list(reversed(ks)) if v.rev else ks
            if v.rev:
                return SymIter(n, lambda i: v.hi - 1 - i)
            return SymIter(n, lambda i: v.lo + i)
        if isinstance(v, SymIter): return v
        if isinstance(v, Arr):
            if v.ndim == 0: raise PyExc('TypeError', 'iteration over a 0-d array')
            if isinstance(v.shape[0], int): return self.items(v)
            return SymIter(v.shape[0], lambda i: A.getitem(v, (i,)))
        if isinstance(v, Seq):
            if isinstance(v.n, int): return [v[k] for k in range(v.n)]
            return SymIter(v.n, lambda i: v.fn(i))
        if isinstance(v, Obj):
            n, _ = v.cls.lookup('__len__')
            if n is not None:
                L = self.call(Bound(n, v), [], {})
                g, _ = v.cls.lookup('__getitem__')
                if isinstance(L, int):
                    return [self.call(Bound(g, v), [k], {}) for k in range(L)]
        return self.items(v)

    # ------------------------------------------------------------ loops with a contract
    def cut_of(self, s, fr):
        if not self.cuts or self.merge or not isinstance(fr.func, Func): return None
        f = fr.func
        q = f.mod.name + '.' + ((f.cls.name + '.') if f.cls else '') + f.name
        loops = outer_loops(f.node.body)
        outer = any(s is x for x in loops)
        spec = self.cuts.get(q if outer else q + '#inner')
        if spec is None or spec is True: return None
        calls = self.getattr(spec, 'calls')
        if not outer:        # the loops directly inside the outermost ones
            nested = []
            for x in loops: nested += outer_loops(x.body)
            loops = nested
        has = [x for x in loops if any(isinstance(n, ast.Call) and getattr(n.func, 'attr', getattr(n.func, 'id', None)) == calls for n in ast.walk(x))]
        if not any(s is x for x in (has or (loops if len(loops) == 1 else []))): return None
        stores = set(n.id for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store))
        return (spec, stores)

    def loop_roles(self, s, fr, stores):
        """what the locals the loop may change hold when it is reached, independently of their names: iota (0..n-1), fresh
        (uninitialised integers), index (other integer vector), vector, buffer (uninitialised vector), number, none1 (not
        yet there), none2 (not yet there, indexed along more than one axis in the loop)"""
        bases = set()
        multi = set(n.value.id for n in ast.walk(s) if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Name) and isinstance(n.slice, ast.Tuple))
        for n in ast.walk(s):
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name): bases.add(n.target.id)
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store):
                x = n.value
                while isinstance(x, (ast.Subscript, ast.Attribute)): x = x.value
                if isinstance(x, ast.Name): bases.add(x.id)
        roles = {}
        for nm in sorted(fr.env):
            x = fr.env[nm]
            ch = nm in stores or nm in bases
            if isinstance(x, Arr):
                if x.ndim == 2 and x.dtype == 'f': roles.setdefault('matrix', []).append(nm)
                if x.ndim != 1: continue
                if x.dtype == 'i':
                    r = 'fresh' if repr(x.body).startswith('uninit') else 'iota' if x.body.key == IX[0].key else 'index'
                elif x.dtype == 'f': r = 'buffer' if repr(x.body).startswith('uninit') else 'vector'
                else: continue
                if r != 'fresh' and not ch: continue
            elif ch and (isinstance(x, (int, float, Expr)) and not isinstance(x, bool)): r = 'number'
            elif ch and x is None: r = 'none2' if nm in multi else 'none1'
            elif isinstance(x, SymObjArr): r = 'objects'
            else: continue
            roles.setdefault(r, []).append(nm)
        return roles

    def cut_loop(self, s, fr, spec, stores):
        """inductive treatment: the invariant holds on entry; an arbitrary iteration keeps it; execution continues after the loop from
        any state satisfying it. The loop may only change its local variables and the objects the contract lists."""
        for k, v in self.cuts.items():
            if v is spec: self.cuts[k] = True
        ctx = T.get_ctx()
        sm = lambda n, *a: self.call(self.getattr(spec, n), list(a), {})
        loc = Locals(fr.env)
        for r, names in self.loop_roles(s, fr, stores).items(): loc['#' + r] = PyList(names)
        loc['#stores'] = PyList(sorted(stores))
        n = None
        if isinstance(s, ast.For):
            it = self.iterate(self.ev(s.iter, fr))
            if isinstance(it, list): raise Unsupported('loop with a contract over a fixed number of iterations')
            n = it.n
            if s.orelse: raise Unsupported('loop with a contract and else')
            loc['#n'] = n
        sm('entry', loc)
        last = self.branch('loop', ['an arbitrary iteration', 'after the last iteration']) != 'an arbitrary iteration'
        i = None
        if n is not None:
            if last: i = expr(n)
            else:
                i = T.sym('iter!%d' % next(N._cnt), True)
                ctx.push(cmp_le(ZERO, i)); ctx.push(cmp_lt(i, expr(n)))
            loc['#i'] = i
        hv = sm('havoc', loc)
        for nm in hv:
            if nm not in stores and isinstance(fr.env.get(nm), SymObjArr): fr.set(nm, hv[nm]); continue
            if nm not in stores and not (nm in fr.env and fr.env[nm] is hv[nm]): raise Unsupported('loop contract: %s is not assigned in the loop' % nm)
        for nm in sorted(stores):
            fr.set(nm, hv[nm] if nm in hv else Poison('local %s of the loop' % nm))
        if n is not None and last: return
        if isinstance(s, ast.For): self.assign(s.target, it.elem(i), fr)
        else:
            c = self.tcond(self.ev(s.test, fr))
            if last: c = cnot(c) if isinstance(c, Cond) else (not c)
            if isinstance(c, Cond): ctx.push(c)
            elif not c: raise Infeasible()
            if last:
                self.block(s.orelse, fr); return
        mod = sm('modifies', loc)
        m0 = HEAP.mark(); mark = next(A._ids)
        ids = set()
        for o in mod:
            ids.add(id(o))
            if isinstance(o, Arr): ids.add(id(o.buf))
        def frame():
            for obj, field, old in HEAP.log[m0:]:
                if obj is fr or serial_of(obj) >= mark or id(obj) in ids: continue
                raise Unsupported('loop contract: the loop modifies %s of an object of type %s' % (field, type(obj).__name__))
        try: self.block(s.body, fr)
        except Cnt: pass
        except Brk:
            frame(); return
        except Ret:
            frame(); raise
        frame()
        l2 = Locals(fr.env)
        if n is not None: l2['#i'] = i; l2['#n'] = n
        sm('back', l2)
        raise Done()

    def s_For(self, s, fr):
        cut = self.cut_of(s, fr)
        if cut: return self.cut_loop(s, fr, *cut)
        it = self.iterate(self.ev(s.iter, fr))
        if isinstance(it, list):
            brk = False
            for v in it:
                self.assign(s.target, v, fr)
                try: self.block(s.body, fr)
                except Brk: brk = True; break
                except Cnt: continue
            if not brk: self.block(s.orelse, fr)
            return
        if s.orelse: raise Unsupported('for-else over a symbolic range')
        def body(i):
            self.assign(s.target, it.elem(i), fr)
            try: self.block(s.body, fr)
            except Cnt: pass
            except Brk: raise Unsupported('break in a loop over a symbolic range')
            except Ret: raise Unsupported('return in a loop over a symbolic range')
        self.summarise(it.n, body, fr)

    def run_body(self, body, gv, n):
        ctx = T.get_ctx()
        i = atom(gv)
        ctx.push(cmp_le(ZERO, i)); ctx.push(cmp_lt(i, expr(n)))
        self.merge.append(gv.key)
        np0 = len(self.path.taken)
        try:
            body(i)
        finally:
            self.merge.pop()
            # forks inside push assumptions; remove ours wherever they are
            for c in (cmp_le(ZERO, i), cmp_lt(i, expr(n))):
                for q in range(len(ctx.assume) - 1, -1, -1):
                    if ctx.assume[q].key == c.key:
                        del ctx.assume[q]; break
            ctx.push(T.CT); ctx.pop()

    def summarise(self, n, body, fr):
        """effect of `for i in [0,n): body(i)` by an inferred and checked invariant"""
        n = expr(n)
        gv = gensym()
        m0 = HEAP.mark()
        rnd0 = len(N.Rand.log)
        locs = {}
        for attempt in range(5):
            del N.Rand.log[rnd0:]
            pres = {}
            for kk, (o, f) in locs.items():
                pre = o._get(f)
                h = self.havoc(o, f, pre)
                pres[kk] = (pre, h)
                HEAP.log.append((o, f, pre))
                o._restore(f, h)
            m1 = HEAP.mark()
            mark = next(A._ids)
            N.Rand.loop.append(gv)
            try:
                self.run_body(body, gv, n)
            except Exception:
                HEAP.rollback(m0)
                raise
            finally:
                N.Rand.loop.pop()
            posts = {}
            for obj, field, old in HEAP.log[m1:]:
                if serial_of(obj) >= mark: continue
                posts[(id(obj), field)] = (obj, field)
            posts = dict((kk, (o, f, freeze(o._get(f), mark))) for kk, (o, f) in posts.items())
            HEAP.rollback(m0)
            if set(posts) <= set(locs): break
            for kk, (o, f, _) in posts.items(): locs[kk] = (o, f)
        else:
            raise Unsupported('loop effects do not stabilise')
        hav = {}
        for kk, (pre, h) in pres.items():
            for nm in havoc_names(h): hav[nm] = kk
        names = set(hav)
        kind = {}
        for kk in locs:
            o, f = locs[kk]
            pre, h = pres[kk]
            post = posts[kk][2] if kk in posts else h
            kind[kk] = self.classify(o, pre, h, post, gv, n, names)
        env = dict(kind=kind, pres=pres, hav=hav, gv=gv, n=n, names=names)
        finals = []
        for kk in locs:
            o, f = locs[kk]
            finals.append((o, f, self.finalise(kk, env)))
        self.loops_summarised += 1
        for o, f, v in finals:
            HEAP.log.append((o, f, o._get(f)))
            o._restore(f, v)

    loops_summarised = 0

    def havoc(self, o, f, pre):
        nm = 'PRE!%d' % next(N._cnt)
        if isinstance(o, A.Buf) and f == 'body':
            isint = o.dtype in 'ib'
            return T.app(nm, *cell_ix(o.shape), isint=isint) if o.shape else T.sym(nm, isint)
        if pre is UNBOUND: return UNBOUND
        if isinstance(o, PyList): return HavocList(nm, pre)
        if isinstance(pre, (bool, Cond)): return Poison('loop-carried flag')
        if isinstance(pre, (int, Q, Expr)):
            isint = isinstance(pre, int) or isinstance(pre, Expr) and T.is_int_expr(pre)
            return T.sym(nm, isint)
        if isinstance(pre, Arr):
            isint = pre.dtype in 'ib'
            if pre.ndim == 0: return Arr.new((), T.sym(nm, isint), pre.dtype)
            return Arr.new(pre.shape, T.app(nm, *cell_ix(pre.shape), isint=isint), pre.dtype)
        if pre is None or isinstance(pre, (str, Class, Func, Mod, Stub)): return pre
        return Poison('loop-carried %s' % type(pre).__name__)

    def classify(self, o, pre, h, post, gv, n, names):
        if post is h: return ('same',)
        if isinstance(o, A.Buf):
            return self.classify_expr(h, post, o.shape, gv, n, names)
        if isinstance(post, (int, Q)) and not isinstance(post, bool): post = expr(post)
        if isinstance(h, Expr) and isinstance(post, Expr):
            return self.classify_expr(h, post, (), gv, n, names)
        if isinstance(h, Arr) and isinstance(post, Arr) and len(post.shape) == len(h.shape) and \
                all(A.same_dim(x, y) for x, y in zip(post.shape, h.shape)):
            r = self.classify_expr(h.body, post.body, post.shape, gv, n, names)
            return ('arr', r, post)
        if isinstance(o, PyList):
            if isinstance(post, list) and len(pre) == 0 and len(post) == 1:
                return ('append', post[0])
            return ('poison', 'list changed in a loop')
        if isinstance(post, (Expr, Arr)) and not self.value_mentions(post, names):
            return ('last', post)
        return ('poison', 'value of an earlier iteration')

    def classify_expr(self, h, post, shape, gv, n, names):
        if post.key == h.key: return ('same',)
        own = havoc_names(h)
        ment = mentions(post, names)
        d = post - h
        if not (set(own) & mentions(d, names)) and set(own) & ment:
            return ('acc', d)
        for ax in range(len(shape)):
            r = self.try_map(h, post, shape, ax, gv, n)
            if r is not None: return r
        if not ment: return ('last', post)
        return ('poison', 'loop-carried value')

    def try_map(self, h, post, shape, ax, gv, n):
        ctx = T.get_ctx()
        sol = None
        for a in post.inds:
            cd = a.args[0]
            if cd.kind == 'eq' and gv.key in cd.fv and ('#%d' % ax) in cd.fv:
                lr = T._lin_in(cd.args[0], gv.key)
                if lr is None or lr[0] not in (1, -1): continue
                s_ = lr[1].scale(-1 / lr[0])     # gv = sol(#ax)
                lr2 = T._lin_in(s_, '#%d' % ax)
                if lr2 is None or lr2[0] not in (1, -1): continue
                sol = s_
                break
        if sol is None:
            return None
        k = A.in_range(shape)
        try:
            ctx.push(T.cmp_ne(atom(gv), sol)); k += 1
            off = T.renorm(post)
            if off.key != T.renorm(h).key:
                for side in (cmp_lt(atom(gv), sol), cmp_lt(sol, atom(gv))):
                    ctx.push(side)
                    try: same = T.renorm(post).key == T.renorm(h).key
                    finally: ctx.pop()
                    if not same: return None
        finally:
            A.popn(k)
        k = A.in_range(shape)
        try:
            ctx.push(cmp_le(ZERO, sol)); ctx.push(cmp_lt(sol, n)); k += 2
            g = T.renorm(subst(post, {gv.key: sol}))
        finally:
            A.popn(k)
        lr2 = T._lin_in(sol, '#%d' % ax)
        cell = (atom(gv) - lr2[1]).scale(1 / lr2[0])      # index written by iteration gv
        return ('map', ax, sol, g, tuple(shape))

    def finalise(self, kk, env):
        k = env['kind'][kk]
        pre, h = env['pres'][kk]
        tag = k[0]
        if tag == 'same': return pre
        if tag == 'poison': return Poison(k[1])
        if tag == 'arr':
            b = self.final_expr(kk, k[1], pre.body, env)
            return b if isinstance(b, Poison) else Arr.new(k[2].shape, b, k[2].dtype)
        if tag == 'append':
            v = k[1]
            if self.value_mentions(v, env['names']):
                v = self.resolve_value(v, env)
                if v is None: return Poison('list of order-dependent values')
            return appended(dim(env['n']), v, env['gv'])
        if tag == 'last' and isinstance(k[1], Arr):
            if T.get_ctx().decide(cmp_le(ONE, env['n'])) is True:
                return subst_value(k[1], {env['gv'].key: env['n'] - 1})
            return Poison('value of the last iteration')
        pb = pre if isinstance(pre, Expr) else expr(pre) if isinstance(pre, (int, Q)) else None
        return self.final_expr(kk, k, pb, env)

    def final_expr(self, kk, k, pb, env):
        tag = k[0]
        ctx = T.get_ctx()
        gv, n = env['gv'], env['n']
        if tag == 'same': return pb
        if tag == 'poison': return Poison(k[1])
        if tag == 'last':
            last = subst(k[1], {gv.key: n - 1})
            if ctx.decide(cmp_le(ONE, n)) is True: return last
            return T.ite(cmp_le(ONE, n), last, pb) if pb is not None else Poison('possibly unassigned')
        if tag == 'acc':
            d = self.resolve(k[1], atom(gv), env)
            if d is None or pb is None: return Poison('accumulation of loop-carried values')
            return pb + T.Sum(gv, n, d)
        if tag == 'map':
            ax, sol, g, shape = k[1:5]
            if pb is None: return Poison('map')
            g = self.resolve(g, sol, env)
            if g is None: return Poison('order-dependent elementwise update')
            c = A.in_range(shape)
            try:
                cond = T.cand(cmp_le(ZERO, sol), cmp_lt(sol, n))
                r = T.renorm(T.ind(cond))
                g = T.renorm(g)
                if r.key == ONE.key: return g
                return r * g + T.renorm(T.ind(cnot(cond))) * pb
            finally: A.popn(c)
        return Poison('loop-carried value')

    def resolve(self, e, it, env):
        """e: value computed in iteration `it`; replace reads of loop-modified locations by their value at
        that moment.  None when that is not expressible."""
        ment = mentions(e, env['names'])
        if not ment: return e
        fns = {}
        ok = [True]
        for nm in ment:
            kk = env['hav'][nm]
            k = env['kind'][kk]
            pre, h = env['pres'][kk]
            if k[0] == 'arr': k = k[1]
            if isinstance(pre, Arr): pb = pre.body
            elif isinstance(pre, Expr): pb = pre
            elif isinstance(pre, (int, Q)): pb = expr(pre)
            else: return None
            if k[0] == 'same':
                fns[nm] = (lambda pb: lambda args: at_ix(pb, args))(pb)
            elif k[0] == 'map':
                def f(args, k=k, pb=pb):
                    ax, sol = k[1], k[2]
                    # the iteration that writes the cell being read
                    w = subst(sol, {'#%d' % ax: args[ax]})
                    if (w - it).key == ZERO.key or T.get_ctx().decide(cmp_le(it, w)) is True \
                            or T.get_ctx().decide(T.cor(cmp_lt(w, ZERO), cmp_le(env['n'], w))) is True:
                        return at_ix(pb, args)
                    ok[0] = False
                    return ZERO
                fns[nm] = f
            elif k[0] == 'acc':
                d = k[1]
                if mentions(d, env['names']): return None
                def f(args, d=d, pb=pb):
                    g2 = gensym()
                    dd = subst(d, {env['gv'].key: atom(g2)})
                    return at_ix(pb + T.Sum(g2, it, dd), args)
                fns[nm] = f
            else: return None
        r = map_apps(e, fns)
        if not ok[0] or mentions(r, env['names']): return None
        return r

    def resolve_value(self, v, env):
        if isinstance(v, Expr): return self.resolve(v, atom(env['gv']), env)
        if isinstance(v, Arr):
            b = self.resolve(v.body, atom(env['gv']), env)
            return None if b is None else Arr.new(v.shape, b, v.dtype)
        if isinstance(v, tuple):
            r = [self.resolve_value(x, env) if self.value_mentions(x, env['names']) else x for x in v]
            return None if any(x is None for x in r) else tuple(r)
        return None

    def value_mentions(self, v, names):
        if isinstance(v, Expr): return bool(mentions(v, names))
        if isinstance(v, Arr): return bool(mentions(v.body, names))
        if isinstance(v, (tuple, list)): return any(self.value_mentions(x, names) for x in v)
        if isinstance(v, (int, Q, str, type(None), bool)): return False
        return True


    # ------------------------------------------------------------ while
    counted_loops = {}
    def counted(self, s):
        """while i < E: ...; i += 1  (also first, downwards, <=) as (counter, for loop over the same values, E, final value): or None"""
        if s in self.counted_loops: return self.counted_loops[s]
        r = self.counted_loops[s] = self._counted(s)
        return r
    def _counted(self, s):
        t = s.test
        if s.orelse or not (isinstance(t, ast.Compare) and len(t.ops) == 1) or len(s.body) < 2: return None
        a, b = t.left, t.comparators[0]
        op = {ast.Lt: '<', ast.LtE: '<=', ast.Gt: '>', ast.GtE: '>='}.get(type(t.ops[0]))
        if op is None: return None
        def step(q, nm):
            if isinstance(q, ast.AugAssign) and isinstance(q.target, ast.Name) and q.target.id == nm and isinstance(q.value, ast.Constant) and q.value.value == 1:
                return 1 if isinstance(q.op, ast.Add) else -1 if isinstance(q.op, ast.Sub) else None
            if isinstance(q, ast.Assign) and len(q.targets) == 1 and isinstance(q.targets[0], ast.Name) and q.targets[0].id == nm and isinstance(q.value, ast.BinOp):
                v = q.value
                if isinstance(v.left, ast.Name) and v.left.id == nm and isinstance(v.right, ast.Constant) and v.right.value == 1:
                    return 1 if isinstance(v.op, ast.Add) else -1 if isinstance(v.op, ast.Sub) else None
            return None
        def simple(e):
            if isinstance(e, (ast.Name, ast.Constant)): return True
            if isinstance(e, ast.Attribute): return simple(e.value)
            if isinstance(e, ast.Subscript): return simple(e.value) and isinstance(e.slice, ast.Constant)
            if isinstance(e, ast.BinOp): return isinstance(e.op, (ast.Add, ast.Sub)) and simple(e.left) and simple(e.right)
            if isinstance(e, ast.UnaryOp): return simple(e.operand)
            return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and simple(e.args[0])
        stored = [n.id for q in s.body for n in ast.walk(q) if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del))]
        attrs = set(n.attr for q in s.body for n in ast.walk(q) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store))
        def own(body):
            for q in body:
                if isinstance(q, (ast.Break, ast.Continue)): return True
                if isinstance(q, (ast.For, ast.While, ast.FunctionDef)): continue
                for f in ('body', 'orelse', 'finalbody', 'handlers'):
                    if own(getattr(q, f, None) or []): return True
            return False
        if own(s.body): return None
        for x, e, o in ((a, b, op), (b, a, {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op])):
            if not isinstance(x, ast.Name) or stored.count(x.id) != 1 or not simple(e): continue
            if any(isinstance(n, ast.Name) and n.id in stored or isinstance(n, ast.Attribute) and n.attr in attrs for n in ast.walk(e)): continue
            last, first = step(s.body[-1], x.id), step(s.body[0], x.id)
            d = last or first
            if d is None or (d == 1) != (o[0] == '<'): continue
            plus = lambda e, k: ast.BinOp(e, ast.Add(), ast.Constant(k)) if k else e
            stop = plus(e, d if len(o) == 2 else 0)
            k = 0 if last else d
            body = s.body[:-1] if last else s.body[1:]
            # the value of the counter while the body runs, and after the loop
            loop = ast.For(ast.Name(x.id, ast.Store()), ast.Call(ast.Name('range', ast.Load()), [plus(ast.Name(x.id, ast.Load()), k), plus(stop, k), ast.Constant(d)], []), body, [])
            for q in (loop, stop):
                ast.copy_location(q, s); ast.fix_missing_locations(q)
            return (x.id, loop, stop, d)
        return None

    def run_counted(self, c, s, fr):
        nm, loop, stop, d = c
        i0, e0 = self.ev(ast.copy_location(ast.Name(nm, ast.Load()), s), fr), self.ev(stop, fr)
        if not all(isinstance(x, (int, Expr)) and not isinstance(x, bool) and (isinstance(x, int) or T.is_int_expr(x)) for x in (i0, e0)): return False
        cut = self.cut_of(s, fr)
        if cut: self.cut_loop(loop, fr, *cut)
        else: self.s_For(loop, fr)
        e1 = self.ev(stop, fr)
        if expr(e1).key != expr(e0).key: raise Unsupported('while loop that changes its own bound')
        ran = T.cmp_le(expr(i0), expr(e0)) if d == 1 else T.cmp_le(expr(e0), expr(i0))
        r = T.get_ctx().decide(ran)
        fr.set(nm, e0 if r is True else i0 if r is False else Poison('counter after the loop'))
        return True

    def s_While(self, s, fr):
        c = self.counted(s)
        if c is not None and self.run_counted(c, s, fr): return
        cut = self.cut_of(s, fr)
        if cut: return self.cut_loop(s, fr, *cut)
        k = 0
        brk = False
        while True:
            c = self.tcond(self.ev(s.test, fr))
            if isinstance(c, Cond):
                r = T.get_ctx().decide(c)
                if r is None:
                    if self.merge: raise Unsupported('data-dependent while loop inside a per-element loop')
                    raise Unsupported('data-dependent while loop')
                c = r
            if not c: break
            k += 1
            if k > 60: raise Unsupported('while loop without a static bound')
            try: self.block(s.body, fr)
            except Brk: brk = True; break
            except Cnt: continue
        if not brk: self.block(s.orelse, fr)

    # ------------------------------------------------------------ expressions
    def ev(self, e, fr):
        f = getattr(self, 'e_' + type(e).__name__, None)
        if f is None: raise Unsupported('expression ' + type(e).__name__)
        v = f(e, fr)
        return self.conc(v)
    def conc(self, v):
        if isinstance(v, Poison): raise Unsupported('use of %s' % v.why)
        if isinstance(v, PyList) and v.seq is not None: return self.conc(v.seq)
        return v
    def e_Constant(self, e, fr):
        v = e.value
        if isinstance(v, float): return expr(v)
        return v
    def e_Name(self, e, fr): return self.name(e.id, fr)
    def name(self, n, fr):
        if n in fr.env: return fr.env[n]
        for c in fr.closure:
            if n in c.env: return c.env[n]
        if n in fr.mod.d: return fr.mod.d[n]
        if n in BUILTINS: return BUILTINS[n]
        if n in EXC: return n
        if fr.func is not None and isinstance(fr.func, Func) and n in local_names(fr.func):
            raise PyExc('UnboundLocalError', n)
        raise PyExc('NameError', n)
    def e_Tuple(self, e, fr): return tuple(self.elts(e.elts, fr))
    def e_List(self, e, fr): return PyList(self.elts(e.elts, fr))
    def elts(self, es, fr):
        out = []
        for x in es:
            if isinstance(x, ast.Starred): out.extend(self.items(self.ev(x.value, fr)))
            else: out.append(self.ev(x, fr))
        return out
    def e_Dict(self, e, fr):
        d = PyDict()
        for k, v in zip(e.keys, e.values):
            if k is None: d.update(self.ev(v, fr))
            else: d[self.ev(k, fr)] = self.ev(v, fr)
        return d
    def e_Set(self, e, fr): return set(self.elts(e.elts, fr))
    def e_JoinedStr(self, e, fr): return '?str'
    def e_Starred(self, e, fr): raise Unsupported('starred')
    def e_UnaryOp(self, e, fr):
        v = self.ev(e.operand, fr)
        if isinstance(e.op, ast.Not):
            c = self.tcond(v)
            return cnot(c) if isinstance(c, Cond) else (not c)
        if isinstance(e.op, ast.USub):
            if isinstance(v, (int, Q)): return -v
            if isinstance(v, Expr): return -v
            return N.negative(v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.dtype == 'b': return N.logical_not(v)
            if isinstance(v, bool): return ~v
            if isinstance(v, Cond): return cnot(v)
            if isinstance(v, MaskSel) and v.dtype == 'b': return N.logical_not(A.materialise(v))
            if isinstance(v, Expr) and T._as_atom(v) is not None and T._as_atom(v).kind == 'ind': return ONE - v
        raise Unsupported('unary op')
    def e_BinOp(self, e, fr):
        return self.binop(e.op, self.ev(e.left, fr), self.ev(e.right, fr))
    def strval(self, x):
        """concrete value of a formatted object; None when it has none"""
        x = self.conc(x)
        if isinstance(x, Arr) and x.ndim == 0: x = x.scalar()
        if isinstance(x, (int, str)): return x
        if isinstance(x, Q): return int(x) if x.denominator == 1 else float(x)
        if isinstance(x, Expr) and x.isconst():
            c = x.constval()
            return int(c) if c.denominator == 1 else float(c)
        return None
    def binop(self, op, a, b):
        a = self.conc(a); b = self.conc(b)
        k = type(op).__name__
        if isinstance(a, Cond): a = T.ind(a)
        if isinstance(b, Cond): b = T.ind(b)
        if isinstance(a, str) and k == 'Mod':
            vals = [self.strval(x) for x in (b if isinstance(b, tuple) else (b,))]
            if any(x is None for x in vals): return '?' + a
            return a % tuple(vals)
        if isinstance(a, str) or isinstance(b, str):
            if k == 'Add' and isinstance(a, str) and isinstance(b, str): return a + b
            raise PyExc('TypeError', 'str operand')
        if isinstance(a, SymRange) and not isinstance(b, (list, tuple)): a = N.asarray(a)
        if isinstance(b, SymRange) and not isinstance(a, (list, tuple)): b = N.asarray(b)
        if isinstance(a, range) and isinstance(b, Arr): a = N.asarray(a)
        if isinstance(b, range) and isinstance(a, Arr): b = N.asarray(b)
        if isinstance(a, (list, tuple)) and not isinstance(b, Arr):
            if k == 'Add' and isinstance(b, (list, tuple)):
                return PyList(list(a) + list(b)) if isinstance(a, list) else tuple(a) + tuple(b)
            if k == 'Mult' and isinstance(b, int): return PyList(list(a) * b) if isinstance(a, list) else a * b
            if k == 'Mult' and isinstance(b, Expr) and len(a) == 1:
                x = a[0]
                return Seq(dim(b), lambda i: x)
        if isinstance(b, (list, tuple)) and k == 'Mult' and not isinstance(a, Arr): return self.binop(op, b, a)
        if isinstance(a, Seq) and k == 'Add' or isinstance(b, Seq) and k == 'Add' and not isinstance(a, Arr): raise Unsupported('sequence concatenation')
        for v in (a, b):
            if v is None: raise PyExc('TypeError', 'unsupported operand None')
            if isinstance(v, (Obj, Func, Class, dict)):
                return self.objop(k, a, b)
            if isinstance(v, (Stub, ObjArr, SymObjArr)): raise Unsupported('operator on %s' % type(v).__name__)
        pa = isinstance(a, (int, Q)); pb = isinstance(b, (int, Q))
        if k == 'MatMult': return N.matmul(a, b)
        if pa and pb:
            if k == 'Add': return a + b
            if k == 'Sub': return a - b
            if k == 'Mult': return a * b
            if k == 'Div':
                if b == 0: raise PyExc('ZeroDivisionError')
                return expr(Q(a) / Q(b))
            if k == 'FloorDiv': return a // b
            if k == 'Mod': return a % b
            if k == 'Pow':
                if isinstance(b, int): return Q(a) ** b if b < 0 else a ** b
            if k == 'BitAnd': return a & b
            if k == 'BitOr': return a | b
        if k == 'Add': return N.add(a, b)
        if k == 'Sub': return N.subtract(a, b)
        if k == 'Mult': return N.multiply(a, b)
        if k == 'Div':
            if not isinstance(b, (Arr, MaskSel)):
                eb = expr(b)
                if eb.isconst() and eb.constval() == 0: raise PyExc('ZeroDivisionError')
            return N.divide(a, b)
        if k == 'Pow': return N.power(a, b)
        if k == 'FloorDiv': return A.ew(lambda x, y: T.mk_fn('fdiv', x, y, isint=True), a, b)
        if k == 'Mod': return A.ew(lambda x, y: T.mk_fn('mod', x, y), a, b)
        if k in ('BitAnd', 'BitOr'):
            return (N.logical_and if k == 'BitAnd' else N.logical_or)(a, b)
        raise Unsupported('operator ' + k)
    def objop(self, k, a, b):
        nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(k)
        if nm and isinstance(a, Obj):
            f, _ = a.cls.lookup(nm)
            if f is not None: return self.call(Bound(f, a), [b], {})
        raise Unsupported('operator on objects')
    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        acc = None
        for i, x in enumerate(e.values):
            v = self.ev(x, fr)
            c = self.tcond(v)
            if isinstance(c, Cond):
                r = T.get_ctx().decide(c)
                if r is None:
                    if self.merge or all(simple(y) for y in e.values[i + 1:]):
                        acc = c if acc is None else (T.cand(acc, c) if isand else T.cor(acc, c))
                        continue
                    r = self.fork(c)
                c = r; v = r
            if c != isand:
                return v if acc is None else c
            last = v
        if acc is not None: return acc
        return last
    def e_Compare(self, e, fr):
        left = self.ev(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.ev(r, fr)
            c = self.compare(op, left, right)
            if res is None: res = c
            else:
                x = self.tcond(res); y = self.tcond(c)
                if isinstance(x, Cond) or isinstance(y, Cond):
                    x = x if isinstance(x, Cond) else (T.CT if x else T.CF)
                    y = y if isinstance(y, Cond) else (T.CT if y else T.CF)
                    res = T.cand(x, y)
                else: res = x and y
            left = right
        return res
    def compare(self, op, a, b):
        k = type(op).__name__
        if k in ('Is', 'IsNot'):
            if b is None or a is None or isinstance(a, (bool, Class, Stub)) or isinstance(b, (bool, Class, Stub)):
                r = a is b
            elif isinstance(a, (Obj, Arr, list)) or isinstance(b, (Obj, Arr, list)): r = a is b
            else: raise Unsupported('is')
            return r if k == 'Is' else not r
        if k in ('In', 'NotIn'):
            if isinstance(b, (dict, str, set)): r = a in b
            elif isinstance(b, (list, tuple)):
                if isinstance(a, (str, int)) and all(isinstance(x, (str, int)) for x in b): r = a in b
                else: raise Unsupported('in')
            elif isinstance(b, (range,)): r = a in b
            else: raise Unsupported('in')
            return r if k == 'In' else not r
        if isinstance(a, SymRange): a = N.asarray(a)
        if isinstance(b, SymRange): b = N.asarray(b)
        if a is None or b is None or isinstance(a, (str, Class, Obj, DType)) or isinstance(b, (str, Class, Obj, DType)):
            if k == 'Eq': return a is b or (isinstance(a, str) and isinstance(b, str) and a == b)
            if k == 'NotEq': return not (a is b or (isinstance(a, str) and isinstance(b, str) and a == b))
            raise PyExc('TypeError', 'comparison with %r' % (a if not isinstance(a, (Arr, Expr)) else b,))
        if isinstance(a, (Arr, MaskSel)) or isinstance(b, (Arr, MaskSel)):
            f = {'Lt': N.less, 'LtE': N.less_equal, 'Gt': N.greater, 'GtE': N.greater_equal, 'Eq': N.equal, 'NotEq': N.not_equal}[k]
            return f(a, b)
        if isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and k in ('Eq', 'NotEq'):
            if len(a) != len(b): return k != 'Eq'
            r = T.CT
            for x, y in zip(a, b):
                c = self.compare(ast.Eq(), x, y)
                r = T.cand(r, c if isinstance(c, Cond) else (T.CT if c else T.CF))
            if k == 'NotEq': r = cnot(r)
            return True if r.kind == 'T' else False if r.kind == 'F' else r
        if isinstance(a, Cond): a = T.ind(a)
        if isinstance(b, Cond): b = T.ind(b)
        a = expr(a); b = expr(b)
        c = {'Lt': T.cmp_lt, 'LtE': T.cmp_le, 'Gt': lambda x, y: T.cmp_lt(y, x), 'GtE': lambda x, y: T.cmp_le(y, x),
             'Eq': T.cmp_eq, 'NotEq': T.cmp_ne}[k](a, b)
        return True if c.kind == 'T' else False if c.kind == 'F' else c
    def e_IfExp(self, e, fr):
        c = self.tcond(self.ev(e.test, fr))
        if isinstance(c, Cond):
            r = T.get_ctx().decide(c)
            if r is None:
                if self.merge:
                    ctx = T.get_ctx()
                    ctx.push(c)
                    try: a = self.ev(e.body, fr)
                    finally: ctx.pop()
                    ctx.push(cnot(c))
                    try: b = self.ev(e.orelse, fr)
                    finally: ctx.pop()
                    return self.merge_val(c, a, b)
                r = self.fork(c)
            c = r
        return self.ev(e.body if c else e.orelse, fr)
    def e_Lambda(self, e, fr):
        return self.mkfunc(e, fr, '<lambda>')
    def e_Attribute(self, e, fr):
        return self.getattr(self.ev(e.value, fr), e.attr)
    def e_Subscript(self, e, fr):
        return self.getitem(self.ev(e.value, fr), self.index(e.slice, fr))
    def index(self, s, fr):
        if isinstance(s, ast.Slice):
            g = lambda x: None if x is None else self.scal(self.ev(x, fr))
            return slice(g(s.lower), g(s.upper), g(s.step))
        if isinstance(s, ast.Tuple): return tuple(self.index(x, fr) for x in s.elts)
        v = self.ev(s, fr)
        if isinstance(v, SymRange): v = N.asarray(v)
        if isinstance(v, range): v = N.asarray(v)
        return v
    def scal(self, v):
        if isinstance(v, Arr): v = v.scalar()
        if isinstance(v, Expr) and v.isconst() and v.constval().denominator == 1: return int(v.constval())
        return v
    def e_ListComp(self, e, fr): return self.comp(e, fr)
    def e_GeneratorExp(self, e, fr): return self.comp(e, fr)
    def e_DictComp(self, e, fr): raise Unsupported('dict comprehension')
    def comp(self, e, fr):
        if len(e.generators) != 1: 
            return self.comp_multi(e, fr)
        g = e.generators[0]
        it = self.iterate(self.ev(g.iter, fr))
        sub = Frame(fr.mod, fr.func, {}, (fr,) + tuple(fr.closure))
        if isinstance(it, list):
            out = PyList()
            for v in it:
                self.assign(g.target, v, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs): out.append(self.ev(e.elt, sub))
            return out
        if g.ifs: raise Unsupported('filtered comprehension over a symbolic range')
        out = PyList()
        def body(i):
            self.assign(g.target, it.elem(i), sub)
            v = self.ev(e.elt, sub)
            out.touch(); out.append(v)
        self.summarise(it.n, body, fr)
        return self.conc(out)
    def comp_multi(self, e, fr):
        out = PyList()
        sub = Frame(fr.mod, fr.func, {}, (fr,) + tuple(fr.closure))
        def go(k):
            if k == len(e.generators):
                out.append(self.ev(e.elt, sub)); return
            g = e.generators[k]
            it = self.iterate(self.ev(g.iter, sub))
            if not isinstance(it, list): raise Unsupported('nested comprehension')
            for v in it:
                self.assign(g.target, v, sub)
                if all(self.truth(self.ev(c, sub)) for c in g.ifs): go(k + 1)
        go(0)
        return out

    # ------------------------------------------------------------ attributes, items
    def getattr(self, o, n):
        o = self.conc(o)
        if isinstance(o, Obj):
            if n in o.a: return self.conc(o.a[n])
            if n == '__class__': return o.cls
            if n == '__dict__': return o.a
            v, c = o.cls.lookup(n)
            if c is None:
                g, _ = o.cls.lookup('__getattr__')
                if g is not None: return self.call(Bound(g, o), [n], {})
                raise PyExc('AttributeError', '%s has no attribute %s' % (o.cls.name, n))
            if isinstance(v, Func):
                if v.kind == 'staticmethod': return v
                if v.kind == 'classmethod': return Bound(v, o.cls)
                if v.kind == 'property': return self.call(Bound(v, o), [], {})
                return Bound(v, o)
            return v
        if isinstance(o, Class):
            v, c = o.lookup(n)
            if n == '__name__': return o.name
            if c is None: raise PyExc('AttributeError', '%s.%s' % (o.name, n))
            return v
        if isinstance(o, Mod):
            if n in o.d: return o.d[n]
            if o.name.split('.')[0] in ('numpy', 'scipy', 'math', 'copy'):
                if o.name == 'numpy' and n in ('int', 'float', 'bool', 'object'):
                    raise PyExc('AttributeError', 'module numpy has no attribute ' + n)
                raise Unsupported('%s.%s' % (o.name, n))
            sub = self.module(o.name + '.' + n)
            if sub is not None: return sub
            raise PyExc('AttributeError', '%s.%s' % (o.name, n))
        if isinstance(o, Stub):
            if n in o.table: return o.table[n]
            raise PyExc('AttributeError', '%s.%s' % (o.name, n))
        if isinstance(o, SuperProxy):
            v, c = o.obj.cls.lookup(n, o.after)
            if c is None:
                if n == '__init__': return lambda *a, **k: None
                raise PyExc('AttributeError', 'super ' + n)
            return Bound(v, o.obj)
        if isinstance(o, (Arr, Expr, int, Q, Seq, MaskSel)): return self.arrattr(o, n)
        if isinstance(o, PyList): return lambda *a, **k: self.listmeth(o, n, *a, **k)
        if isinstance(o, PyDict):
            if n == 'get': return lambda k, d=None: o.get(k, d)
            if n == 'keys': return lambda: PyList(o.keys())
            if n == 'items': return lambda: PyList(o.items())
            if n == 'values': return lambda: PyList(o.values())
            if n == 'copy': return lambda: PyDict(o)
            if n == 'setdefault':
                def sd(k, d=None):
                    if k not in o: o.touch(); o[k] = d
                    return o[k]
                return sd
            if n == 'update':
                def up(*a, **k):
                    o.touch()
                    for x in a: o.update(x)
                    o.update(k)
                return up
            if n == 'pop':
                def pop(k, *d):
                    o.touch(); return o.pop(k, *d)
                return pop
        if isinstance(o, str):
            if n in ('lower', 'upper', 'strip', 'startswith', 'endswith', 'format', 'split', 'join', 'replace'): return getattr(o, n)
        if isinstance(o, ObjArr):
            if n == 'shape': return (len(o.items),)
            if n == 'size': return len(o.items)
            if n == 'dtype': return N.OBJ
            if n == 'ndim': return 1
            if n == 'copy': return lambda: ObjArr(o.items)
            if n == 'resize':
                def rs(shape, refcheck=True):
                    s = N.shp(shape)
                    if len(s) != 1 or not isinstance(s[0], int): raise Unsupported('resize')
                    o.touch()
                    o.items = o.items[:s[0]] + [0] * (s[0] - len(o.items))
                return rs
        if o is None: raise PyExc('AttributeError', "'NoneType' object has no attribute '%s'" % n)
        if isinstance(o, ExcVal):
            if n == 'args': return o.args
        if isinstance(o, tuple) and n in ('count', 'index'): return getattr(o, n)
        if isinstance(o, Func) and n in ('__name__',): return o.name
        if isinstance(o, slice) and n in ('start', 'stop', 'step'): return getattr(o, n)
        raise Unsupported('attribute %s of %s' % (n, type(o).__name__))

    def listmeth(self, o, n, *a, **k):
        if n == 'append': o.touch(); o.append(a[0]); return None
        if n == 'extend': o.touch(); o.extend(self.items(a[0])); return None
        if n == 'insert': o.touch(); o.insert(a[0], a[1]); return None
        if n == 'pop': o.touch(); return o.pop(*a)
        if n == 'reverse': o.touch(); o.reverse(); return None
        if n == 'copy': return PyList(o)
        if n == 'index' and all(isinstance(x, (int, str)) for x in o): return o.index(*a)
        raise Unsupported('list.' + n)

    def arrattr(self, o, n):
        if isinstance(o, Seq):
            if n == 'append':
                raise Unsupported('append to a symbolic sequence')
            if n in ('shape', 'ndim', 'T', 'dot', 'ravel', 'reshape', 'copy', 'sum', 'mean'): raise PyExc('AttributeError', 'list has no attribute ' + n)
        if isinstance(o, MaskSel):
            if n == 'T' and len(o.shape) == 1: return o
            o = A.materialise(o)
        if isinstance(o, int) and not isinstance(o, bool) and n in ('shape', 'T', 'ravel', 'dot'):
            raise PyExc('AttributeError', 'int has no attribute ' + n)
        a = toarr(o)
        if n == 'T': return a.T if a.ndim else o
        if n == 'shape': return a.shape
        if n == 'ndim': return a.ndim
        if n == 'size': return a.size
        if n == 'dtype': return {'f': N.FLOAT, 'i': N.INT, 'b': N.BOOL, 'o': N.OBJ}[a.dtype]
        if n == 'real': return o
        if n == 'flat': raise Unsupported('flat')
        def m(f): return lambda *x, **k: f(a, *x, **k)
        if n == 'dot': return m(N.dot)
        if n == 'copy': return lambda *x, **k: a.copy() if a.ndim else a.at()
        if n == 'ravel': return lambda *x, **k: N.ravel(a)
        if n == 'flatten': return lambda *x, **k: N.ravel(a).copy()
        if n == 'reshape':
            def rs(*s, **k):
                if len(s) == 1 and isinstance(s[0], (tuple, list)): s = s[0]
                return A.reshape(a, [self.scal(q) for q in s])
            return rs
        if n == 'astype': return lambda d, **k: a.copy(N.dt(d)) if not (N.dt(d) == 'i' and a.dtype == 'f') else self._unsup('astype int')
        if n in ('sum', 'mean', 'max', 'min', 'trace', 'squeeze', 'cumsum', 'any', 'all', 'argmax', 'argsort', 'repeat', 'diagonal', 'searchsorted', 'prod'):
            return m({'sum': N.sum_, 'mean': N.mean, 'max': N.max_, 'min': N.min_, 'trace': N.trace, 'squeeze': N.squeeze,
                      'cumsum': N.cumsum, 'any': N.any_, 'all': N.all_, 'argmax': N.argmax, 'argsort': N.argsort, 'repeat': N.repeat, 'diagonal': N.diagonal,
                      'searchsorted': N.searchsorted, 'prod': N.prod}[n])
        if n == 'transpose': return lambda *x: N.transpose(a, x[0] if len(x) == 1 and isinstance(x[0], (tuple, list)) else (x or None))
        if n == 'swapaxes': return m(N.swapaxes)
        if n == 'item': return lambda *x: a.scalar() if not x else self._unsup('item')
        if n == 'fill': return lambda v: A.assign(a, v)
        if n == 'tolist': return lambda: PyList(self.items(a))
        if n == 'resize':
            def rsz(shape, refcheck=True):
                s = N.shp(shape)
                if a is not o or a.ndim != 1 or len(s) != 1:
                    raise Unsupported('resize')
                if T.get_ctx().decide(cmp_le(expr(s[0]), expr(a.shape[0]))) is not True: b = T.ite(cmp_lt(IX[0], expr(a.shape[0])), a.body, ZERO)
                else: b = a.body
                HEAP.log.append((o, '_all', o._get('_all')))
                o.buf = A.Buf((s[0],), b, a.dtype); o.shape = (s[0],); o.idx = tuple(IX[:1])
            return rsz
        if isinstance(o, (Expr, Q)) and n == '__class__': return N.FLOAT
        raise Unsupported('array attribute ' + n)
    def _unsup(self, m): raise Unsupported(m)

    def setattr(self, o, n, v):
        if isinstance(o, Obj): o.set(n, v)
        elif isinstance(o, Mod): raise Unsupported('module attribute assignment')
        elif isinstance(o, Stub): o.table[n] = v
        elif isinstance(o, Arr) and n == 'shape': raise Unsupported('shape assignment')
        else: raise PyExc('AttributeError', 'cannot set %s' % n)

    def getitem(self, o, ix):
        o = self.conc(o)
        if isinstance(o, A.MaskSel): o = A.materialise(o)
        if isinstance(o, Arr): return A.getitem(o, ix)
        if isinstance(o, (list, tuple)):
            ix = self.scal(ix)
            if isinstance(ix, slice):
                r = list.__getitem__(o, ix) if isinstance(o, list) else o[ix]
                return PyList(r) if isinstance(o, list) else r
            if isinstance(ix, (int,)):
                try: return o[ix]
                except IndexError: raise PyExc('IndexError', 'list index out of range')
            if isinstance(ix, (Arr, tuple, list)): raise PyExc('TypeError', 'list indices must be integers')
            if isinstance(ix, Expr):
                if len(o) == 1:
                    A.require(cmp_eq(ix, ZERO), 'list index', 'IndexError'); return o[0]
                return self.symlist(o, ix)
        if isinstance(o, Seq):
            ix = self.scal(ix)
            if isinstance(ix, slice):
                lo, ln, st = A.slice_bounds(ix, o.n)
                if st == -1: return Seq(dim(ln), lambda i: o.fn(lo - i))
                return Seq(dim(ln), lambda i: o.fn(lo + i))
            if isinstance(ix, (Arr, tuple)): raise PyExc('TypeError', 'list indices must be integers')
            return o.fn(A.norm_index(ix, o.n))
        if isinstance(o, dict):
            if ix not in o and not isinstance(o, Locals): raise PyExc('KeyError', str(ix))
            return o[ix]
        if isinstance(o, ObjArr):
            ix = self.scal(ix)
            if isinstance(ix, slice): return ObjArr(o.items[ix])
            if isinstance(ix, int):
                try: return o.items[ix]
                except IndexError: raise PyExc('IndexError', 'index out of bounds')
            if isinstance(ix, Arr) and ix.ndim == 1 and isinstance(ix.shape[0], int):
                return ObjArr([o.items[int(ix.at(ZERO + k).constval())] for k in range(ix.shape[0])])
        if isinstance(o, SymObjArr) and isinstance(self.scal(ix), (int, Expr)) and o.writes:
            k = A.norm_index(self.scal(ix), o.n)
            if expr(o.writes[-1][0]).key == expr(k).key: return o.writes[-1][1]
        if isinstance(o, (Expr, int, Q)): 
            if ix == () : return o
            raise PyExc('TypeError', 'scalar not subscriptable')
        if o is None: raise PyExc('TypeError', "'NoneType' object is not subscriptable")
        if isinstance(o, Obj):
            f, _ = o.cls.lookup('__getitem__')
            if f is not None: return self.call(Bound(f, o), [ix], {})
        if isinstance(o, Stub) and '__getitem__' in o.table: return o.table['__getitem__'](ix)
        if isinstance(o, (range, str)): return o[ix]
        if isinstance(o, SymRange): return self.getitem(N.asarray(o), ix)
        raise Unsupported('subscript of %s' % type(o).__name__)
    def symlist(self, o, ix):
        arrs = [toarr(x) for x in o]
        A.require(T.cand(cmp_le(ZERO, ix), cmp_lt(ix, expr(len(o)))), 'list index', 'IndexError')
        return A.getitem(A.stack0(arrs), (ix,))

    def setitem(self, o, ix, v):
        if isinstance(v, SymRange): v = N.asarray(v)
        if isinstance(o, Arr): return A.setitem(o, ix, v)
        ix = self.scal(ix) if not isinstance(ix, (tuple, str)) else ix
        if isinstance(o, PyList):
            o.touch()
            if isinstance(ix, (int, slice)):
                try: o[ix] = v
                except IndexError: raise PyExc('IndexError', 'list assignment index out of range')
                return
        if isinstance(o, PyDict): o.touch(); o[ix] = v; return
        if isinstance(o, ObjArr):
            if isinstance(ix, int):
                if not -len(o.items) <= ix < len(o.items): raise PyExc('IndexError', 'index out of bounds')
                o.touch(); o.items = list(o.items); o.items[ix] = v; return
            if isinstance(ix, slice):
                o.touch(); it = list(o.items)
                ks = list(range(len(it)))[ix]
                vs = self.items(v) if isinstance(v, (list, tuple, ObjArr)) else [v] * len(ks)
                for q, w in zip(ks, vs): it[q] = w
                o.items = it; return
        if isinstance(o, Seq) and getattr(o, 'backing', None) is not None and not isinstance(ix, slice):
            return A.setitem(o.backing, (ix,), v)
        if isinstance(o, SymObjArr) and isinstance(ix, (int, Expr)) and not self.merge:
            HEAP.log.append((o, 'writes', o.writes))
            o.writes = o.writes + [(A.norm_index(ix, o.n), v)]; return
        if isinstance(o, (Expr, int, Q)): raise PyExc('TypeError', 'scalar does not support item assignment')
        if isinstance(o, Obj):
            f, _ = o.cls.lookup('__setitem__')
            if f is not None:
                self.call(Bound(f, o), [ix, v], {}); return
        raise Unsupported('item assignment to %s' % type(o).__name__)

    # ------------------------------------------------------------ calls
    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.env:
            if e.args:
                c = self.ev(e.args[0], fr); o = self.ev(e.args[1], fr)
            else:
                c = fr.func.cls
                o = fr.env[fr.func.node.args.args[0].arg]
            return SuperProxy(o, c)
        f = self.ev(e.func, fr)
        args = []
        for x in e.args:
            if isinstance(x, ast.Starred): args.extend(self.items(self.ev(x.value, fr)))
            else: args.append(self.ev(x, fr))
        kw = {}
        for k in e.keywords:
            if k.arg is None: kw.update(self.ev(k.value, fr))
            else: kw[k.arg] = self.ev(k.value, fr)
        return self.call(f, args, kw)

    def call(self, f, args, kw):
        if isinstance(f, Bound):
            if isinstance(f.f, Func): return self.callf(f.f, [f.self_] + list(args), kw)
            return self.call(f.f, args, kw)
        if isinstance(f, Func): return self.callf(f, list(args), kw)
        if isinstance(f, Class): return self.instantiate(f, args, kw)
        if isinstance(f, Obj):
            m, _ = f.cls.lookup('__call__')
            if m is not None: return self.callf(m, [f] + list(args), kw)
            raise PyExc('TypeError', 'object not callable')
        if isinstance(f, Builtin): return f.fn(self, *args, **kw)
        if isinstance(f, str) and f in EXC: return ExcVal(f, tuple(args))
        if callable(f):
            args = [N.asarray(x) if isinstance(x, SymRange) else x for x in args]
            try:
                r = f(*args, **kw)
            except TypeError as ex:
                raise Unsupported('call of %s: %s' % (getattr(f, '__name__', f), ex))
            if isinstance(r, list) and not isinstance(r, PyList): r = PyList(r)
            return r
        if f is None: raise PyExc('TypeError', "'NoneType' object is not callable")
        if isinstance(f, Stub):
            if '__call__' in f.table: return f.table['__call__'](*args, **kw)
        raise Unsupported('call of %s' % type(f).__name__)

    def instantiate(self, c, args, kw):
        o = Obj(c)
        init, _ = c.lookup('__init__')
        if init is not None: self.callf(init, [o] + list(args), kw)
        return o

    def callf(self, f, args, kw):
        qn = f.mod.name + '.' + ((f.cls.name + '.') if f.cls else '') + f.name
        self.funcs_entered[qn] = self.funcs_entered.get(qn, 0) + 1
        if qn in self.intercept and not self.intercept_off(qn):
            return self.intercept[qn](self, args, kw)
        if isinstance(f.node, ast.Lambda): a = f.node.args
        else: a = f.node.args
        env = {}
        names = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        if len(args) > len(names):
            if a.vararg is None: raise PyExc('TypeError', '%s() takes %d positional arguments but %d were given' % (f.name, len(names), len(args)))
            env[a.vararg.arg] = tuple(args[len(names):])
            args = args[:len(names)]
        elif a.vararg is not None: env[a.vararg.arg] = ()
        for n, v in zip(names, args): env[n] = v
        kwx = {}
        konly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in names or k in konly:
                if k in env: raise PyExc('TypeError', 'multiple values for argument ' + k)
                env[k] = v
            elif a.kwarg is not None: kwx[k] = v
            else: raise PyExc('TypeError', '%s() got an unexpected keyword argument %s' % (f.name, k))
        if a.kwarg is not None: env[a.kwarg.arg] = PyDict(kwx)
        nd = len(f.defaults)
        for n, v in zip(names[len(names) - nd:], f.defaults):
            if n not in env: env[n] = v
        for n, v in zip(konly, f.kwd):
            if n not in env and v is not UNBOUND: env[n] = v
        for n in names + konly:
            if n not in env: raise PyExc('TypeError', '%s() missing required argument %s' % (f.name, n))
        fr = Frame(f.mod, f, env, f.closure)
        if isinstance(f.node, ast.Lambda): return self.ev(f.node.body, fr)
        self.depth += 1
        if self.depth > 60: raise Unsupported('recursion depth')
        try:
            self.block(f.node.body, fr)
            return None
        except Ret as r:
            return r.v
        finally:
            self.depth -= 1
    def intercept_off(self, qn): return False


class SuperProxy(object):
    def __init__(self, obj, after): self.obj = obj; self.after = after
class Builtin(object):
    def __init__(self, fn): self.fn = fn

EXC = set('Exception ValueError TypeError IndexError KeyError NotImplementedError AssertionError RuntimeError AttributeError ZeroDivisionError ArithmeticError LookupError NameError StopIteration FloatingPointError OverflowError ImportError DeprecationWarning UserWarning'.split())

_ln = {}
def local_names(f):
    if f.node in _ln: return _ln[f.node]
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
    _ln[f.node] = out
    return out

def simple(e):
    """evaluating e cannot fail or have effects even if an earlier conjunct is false"""
    return all(isinstance(n, (ast.Name, ast.Constant, ast.Compare, ast.Load, ast.cmpop, ast.BoolOp, ast.boolop, ast.UnaryOp, ast.unaryop, ast.BinOp, ast.operator))
               for n in ast.walk(e)) and not any(isinstance(n, (ast.Div, ast.FloorDiv, ast.Mod)) for n in ast.walk(e))

def b_range(I, *a):
    a = [I.scal(x) for x in a]
    if len(a) == 1: lo, hi, st = 0, a[0], 1
    elif len(a) == 2: lo, hi, st = a[0], a[1], 1
    else: lo, hi, st = a
    if all(isinstance(x, int) for x in (lo, hi, st)): return range(lo, hi, st)
    if any(isinstance(x, Expr) and not T.is_int_expr(x) for x in (lo, hi)): raise PyExc('TypeError', 'float cannot be interpreted as an integer')
    if st == 1: return SymRange(lo, hi)
    if st == -1:
        r = SymRange(expr(hi) + 1, expr(lo) + 1); r.rev = True
        return r
    raise Unsupported('range step')
def b_len(I, x):
    x = I.conc(x)
    if isinstance(x, Arr):
        if x.ndim == 0: raise PyExc('TypeError', 'len() of unsized object')
        return x.shape[0]
    if isinstance(x, Seq): return x.n
    if isinstance(x, ObjArr): return len(x.items)
    if isinstance(x, SymObjArr): return x.n
    if isinstance(x, (list, tuple, dict, str, range, set)): return len(x)
    if isinstance(x, SymRange): return dim(x.hi - x.lo)
    if isinstance(x, Obj):
        f, _ = x.cls.lookup('__len__')
        if f is not None: return I.call(Bound(f, x), [], {})
    if isinstance(x, Stub) and '__len__' in x.table: return x.table['__len__']()
    if isinstance(x, MaskSel): return A.materialise(x).shape[0]
    raise PyExc('TypeError', 'object of type %s has no len()' % type(x).__name__)
def b_reversed(I, x):
    x = I.conc(x)
    if isinstance(x, SymRange):
        r = SymRange(x.lo, x.hi); r.rev = not x.rev
        return r
    if isinstance(x, Seq):
        return Seq(x.n, lambda i: x.fn(expr(x.n) - 1 - i))
    return PyList(reversed(I.items(x)))
def b_enumerate(I, x, start=0):
    it = I.iterate(I.conc(x))
    if isinstance(it, list): return PyList((k + start, v) for k, v in enumerate(it))
    return SymIter(it.n, lambda i: (i + start, it.elem(i)))
def b_zip(I, *xs):
    its = [I.iterate(I.conc(x)) for x in xs]
    if all(isinstance(i, list) for i in its): return PyList(zip(*its))
    n = None
    for i in its:
        m = len(i) if isinstance(i, list) else i.n
        if n is None: n = m
        elif not A.same_dim(n, m): raise Unsupported('zip of different symbolic lengths')
    def el(k):
        return tuple(I.symlist(i, k) if isinstance(i, list) else i.elem(k) for i in its)
    return SymIter(n, el)
def b_isinstance(I, x, c):
    cs = c if isinstance(c, tuple) else (c,)
    for k in cs:
        if isinstance(k, Class):
            if isinstance(x, Obj) and k in x.cls.mro: return True
        elif isinstance(k, DType):
            if k is N.OBJ and isinstance(x, (Arr, ObjArr)): return True
            if isinstance(x, Expr) and k.k == 'f': return True
        elif k is BUILTINS['list'] :
            if isinstance(x, (PyList, Seq)): return True
        elif k is BUILTINS['tuple']:
            if isinstance(x, tuple): return True
        elif k is BUILTINS['dict']:
            if isinstance(x, dict): return True
        elif k is BUILTINS['int']:
            if isinstance(x, int): return True
        elif k is BUILTINS['float']:
            if isinstance(x, (Expr, Q)): return True
        elif k is BUILTINS['str']:
            if isinstance(x, str): return True
        elif k is BUILTINS['slice']:
            if isinstance(x, slice): return True
        else: raise Unsupported('isinstance')
    return False
def b_hasattr(I, o, n):
    try:
        I.getattr(o, n); return True
    except PyExc as e:
        if e.cls == 'AttributeError': return False
        raise
def b_getattr(I, o, n, *d):
    try: return I.getattr(o, n)
    except PyExc as e:
        if e.cls == 'AttributeError' and d: return d[0]
        raise
def b_setattr(I, o, n, v): I.setattr(o, n, v)
def b_list(I, x=()):
    x = I.conc(x)
    if isinstance(x, Seq): return x
    if isinstance(x, SymRange): return N.asarray(x)
    it = I.iterate(x)
    if isinstance(it, list): return PyList(it)
    return Seq(it.n, it.elem)
def b_tuple(I, x=()):
    return tuple(I.items(x))
def b_dict(I, *a, **k):
    d = PyDict()
    for x in a: d.update(x)
    d.update(k)
    return d
def b_float(I, x=0):
    if isinstance(x, str): raise Unsupported('float(str)')
    return toarr(x).scalar()
def b_int(I, x=0):
    x = I.scal(x) if not isinstance(x, int) else x
    if isinstance(x, int): return x
    x = toarr(x).scalar()
    if T.is_int_expr(x): return x
    return T.mk_fn('int', x, isint=True)
def b_abs(I, x): return N.absolute(x)
def _mm(I, xs, mx):
    if len(xs) == 1: xs = I.items(xs[0])
    if all(isinstance(x, (int, Q)) for x in xs): return max(xs) if mx else min(xs)
    r = toarr(xs[0]).scalar()
    for x in xs[1:]:
        x = toarr(x).scalar()
        r = T.mk_max2(r, x) if mx else -T.mk_max2(-r, -x)
    return r
def b_max(I, *xs): return _mm(I, xs, True)
def b_min(I, *xs): return _mm(I, xs, False)
def b_sum(I, x, start=0):
    it = I.iterate(I.conc(x))
    if isinstance(it, list):
        r = start
        for v in it: r = I.binop(ast.Add(), r, v)
        return r
    g = gensym()
    v = it.elem(atom(g))
    v = toarr(v).scalar()
    return T.Sum(g, expr(it.n), v) + expr(start)
def b_print(I, *a, **k): return None
def b_bool(I, x=False):
    c = I.tcond(x)
    return c
def b_type(I, x):
    if isinstance(x, Obj): return x.cls
    raise Unsupported('type()')
def b_round(I, *a): raise Unsupported('round')
def b_callable(I, f): return isinstance(f, (Func, Bound, Class)) or callable(f)
def b_str(I, x=''):
    r = I.strval(x)
    return '?str' if r is None else str(r)
def b_all(I, x):
    r = True
    for v in I.items(x):
        if not I.truth(v): return False
    return True
def b_any(I, x):
    for v in I.items(x):
        if I.truth(v): return True
    return False
def b_pow(I, a, b): return I.binop(ast.Pow(), a, b)
def b_map(I, f, *xs):
    return PyList(I.call(f, list(t), {}) for t in zip(*[I.items(x) for x in xs]))
BUILTINS = dict((k[2:], Builtin(v)) for k, v in list(globals().items()) if k.startswith('b_'))
BUILTINS['xrange_'] = BUILTINS['range']
BUILTINS.update({'True': True, 'False': False, 'None': None, 'object': Class('object', [], {}, None), 'Ellipsis': Ellipsis,
                 'NotImplemented': Stub('NotImplemented', {}), 'slice': Builtin(lambda I, *a: slice(*a))})

def serial_of(o):
    if isinstance(o, A.Buf): return o.id
    return getattr(o, 'serial', -1)

def freeze(v, mark):
    """value independent of later roll-back of objects created after `mark`"""
    if isinstance(v, Arr):
        if v.buf.id >= mark: return Arr.new(v.shape, v.body, v.dtype)
        return v
    if isinstance(v, tuple): return tuple(freeze(x, mark) for x in v)
    if isinstance(v, PyList): return [freeze(x, mark) for x in v]
    if isinstance(v, list): return [freeze(x, mark) for x in v]
    return v

def at_ix(body, args):
    return subst(body, dict(('#%d' % k, a) for k, a in enumerate(args)))

def havoc_names(h):
    if isinstance(h, Arr): h = h.buf.body
    if isinstance(h, Expr):
        a = T._as_atom(h)
        if a is not None and a.kind in ('app', 'v'): return [a.args[0]]
        return []
    if isinstance(h, HavocList): return [h.name]
    return []

def mentions(e, names):
    out = set(); seen = set()
    def wE(x):
        if x.key in seen: return
        seen.add(x.key)
        for k, (c, m) in x.t.items():
            for v, nn in m.binders: wE(nn)
            for a, q in m.factors: wA(a)
    def wA(a):
        if a.kind == 'v':
            if a.args[0] in names: out.add(a.args[0])
            return
        if a.key in seen: return
        seen.add(a.key)
        if a.kind == 'app' and a.args[0] in names: out.add(a.args[0])
        for x in a.args:
            if isinstance(x, Expr): wE(x)
            elif isinstance(x, T.Lam): wE(x.body)
            elif isinstance(x, Cond): wC(x)
    def wC(c):
        for x in c.args:
            if isinstance(x, Expr): wE(x)
            else: wC(x)
    wE(e)
    return out

def map_apps(e, fns):
    """replace applications (and symbols) by functions of their arguments"""
    memo = {}
    names = set(fns)
    def wE(x):
        if x.key in memo: return memo[x.key]
        if not mentions(x, names):
            memo[x.key] = x; return x
        acc = ZERO
        for k, (c, m) in x.t.items():
            b, f = T._freshen(m)
            b = [(v, wE(nn)) for v, nn in b]
            ctx = T.get_ctx()
            for v, nn in b:
                ctx.push(cmp_le(ZERO, atom(v))); ctx.push(cmp_lt(atom(v), nn))
            res = ONE
            keep = []
            for a, q in f:
                if mentions(atom(a), names): res = res * T.powe(wA(a), q)
                else: keep.append((a, q))
            for _ in b: ctx.pop(); ctx.pop()
            acc = acc + T._wrap(c, b, keep, res)
        memo[x.key] = acc
        return acc
    def wA(a):
        if a.kind == 'v': return fns[a.args[0]](()) if a.args[0] in fns else atom(a)
        args = tuple(wX(x) for x in a.args)
        if a.kind == 'app' and a.args[0] in fns: return fns[a.args[0]](args[1:])
        return T.rebuild(a.kind, args, a.isint)
    def wX(x):
        if isinstance(x, Expr): return wE(x)
        if isinstance(x, T.Lam):
            gs = [gensym() for _ in range(x.n)]
            return T.Lam(gs, wE(x(*[atom(g) for g in gs])))
        if isinstance(x, Cond): return wC(x)
        return x
    def wC(c):
        if c.kind in ('le', 'lt', 'eq', 'ne'): return T._normcmp(c.kind, wE(c.args[0]))
        if c.kind in ('b', 'nb'): return Cond(c.kind, (wE(c.args[0]),))
        if c.kind == 'and': return T.cand(*[wC(x) for x in c.args])
        if c.kind == 'or': return T.cor(*[wC(x) for x in c.args])
        return c
    return wE(e)

def appended(n, v, gv):
    """sequence built by appending v(i) in iteration i; array elements share one backing store"""
    if isinstance(v, Arr) and not any(isinstance(s, Expr) and gv.key in s.fv for s in v.shape):
        b = subst(v.body, dict(('#%d' % k, IX[k + 1]) for k in range(v.ndim)))
        back = Arr.new((n,) + v.shape, subst(b, {gv.key: IX[0]}), v.dtype)
        if v.ndim == 0: return Seq(n, lambda i: Arr.new((), back.at(i), v.dtype))
        s = Seq(n, lambda i: A.getitem(back, (i,)))
        s.backing = back
        return s
    if isinstance(v, tuple):
        parts = [appended(n, x, gv) for x in v]
        return Seq(n, lambda i: tuple(p[i] for p in parts))
    if isinstance(v, (int, Q)): return Seq(n, lambda i: v)
    if isinstance(v, (Expr, Cond)): return Seq(n, lambda i: subst_value(v, {gv.key: expr(i)}))
    if v is None or isinstance(v, str): return Seq(n, lambda i: v)
    raise Unsupported('sequence of %s' % type(v).__name__)

class HavocList(list):
    """content of a list at the start of a generic iteration (restored as an empty list)"""
    def __init__(self, name, pre):
        list.__init__(self); self.name = name; self.pre = pre

def subst_value(v, mp):
    if isinstance(v, Expr): return subst(v, mp)
    if isinstance(v, Cond): return T.csubst(v, mp)
    if isinstance(v, Arr):
        return Arr.new([dim(subst(expr(s), mp)) for s in v.shape], subst(v.body, mp), v.dtype)
    if isinstance(v, tuple): return tuple(subst_value(x, mp) for x in v)
    if isinstance(v, list): return PyList(subst_value(x, mp) for x in v)
    if isinstance(v, Obj):
        r = Obj(v.cls); r.a = dict((k, subst_value(x, mp)) for k, x in v.a.items()); return r
    return v
