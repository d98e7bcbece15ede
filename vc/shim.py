"""Loads /repo/src/pyRFtk from source on every run into a private namespace whose
numpy / scipy / builtins accept symbolic Terms.  The module text executed is the
file's text, unchanged."""
import builtins, sys, os, types, math, numbers
import numpy as _np
from .term import *
from .term import Unsupported, lift, SBool, fangle, fsqrt, fexp, flog, fabs, PI, identical, isconst
from . import term as T

REPO = os.environ.get('PYRFTK_REPO', '/repo')

class SymArray(_np.ndarray):
    def __new__(cls, x):
        a = _np.asarray(x, dtype=object)
        return a.view(cls)
    def __array_finalize__(self, obj): pass
    def __array_wrap__(self, a, context=None, return_scalar=False):
        return a[()] if a.ndim == 0 else a.view(SymArray) if a.dtype == object else a
    @property
    def real(self): return _map(lambda t: lift(t).real, self)
    @real.setter
    def real(self, v): raise Unsupported('assignment to .real')
    @property
    def imag(self): return _map(lambda t: lift(t).imag, self)
    @imag.setter
    def imag(self, v): raise Unsupported('assignment to .imag')
    def conj(self): return _map(lambda t: lift(t).conjugate(), self)
    conjugate = conj
    def astype(self, dt, **kw):
        k = _kind(dt)
        if k in 'fcO': return self.copy()
        if k == 'S': return _np.array([str(t) for t in self.flat]).reshape(self.shape)
        return _np.array([_tokind(t, k) for t in self.flat]).reshape(self.shape)
    def __deepcopy__(self, memo): return self.copy()
    def __setitem__(self, k, v):
        if isinstance(v, (list, tuple)): v = wrap(_np.asarray(v, dtype=object))
        elif isinstance(v, _np.ndarray): v = wrap(v)
        else:
            w = lift(v); v = v if w is None else w
        super().__setitem__(_idx(k), v)
    def __getitem__(self, k):
        return super().__getitem__(_idx(k))
    def __iadd__(self, o): self[...] = self+o; return self
    def __isub__(self, o): self[...] = self-o; return self
    def __imul__(self, o): self[...] = self*o; return self
    def __itruediv__(self, o): self[...] = self/o; return self
    def max(self, axis=None, **k): return NP.max(self, axis)
    def min(self, axis=None, **k): return NP.min(self, axis)
    def argmax(self, axis=None, **k): return NP.argmax(self, axis)
    def argmin(self, axis=None, **k): return NP.argmin(self, axis)
    def mean(self, axis=None, dtype=None, out=None, **k): return NP.mean(self, axis, **k)
    def sort(self, axis=-1, **k): self[...] = NP.sort(self)
    def dot(self, o): return NP.dot(self, o)
    def __repr__(self): return 'SymArray(%s)' % (_np.ndarray.tolist(self),)
    __str__ = __repr__
    def __reduce__(self): return (_unpk, (self.shape, list(self.flat)))

def _unpk(shape, l):
    a = _np.empty(shape, dtype=object)
    for i, ix in enumerate(_np.ndindex(*shape)): a[ix] = l[i]
    return a.view(SymArray)

def _idx(k):
    if isinstance(k, Term): return k.__index__()
    if isinstance(k, tuple): return tuple(_idx(x) for x in k)
    if isinstance(k, _np.ndarray) and k.dtype == object and k.size:
        if all(isinstance(t, (bool, SBool, _np.bool_)) for t in k.flat):
            return _np.array([bool(t) for t in k.flat]).reshape(k.shape)
        return _np.array([int(t) for t in k.flat]).reshape(k.shape)
    return k

def _tokind(t, k):
    if k == 'i': return int(t)
    if k == 'b': return bool(t)
    raise Unsupported('astype '+k)

def _kind(dt):
    if dt is None: return 'f'
    if dt in (FloatShim, float): return 'f'
    if dt in (ComplexShim, complex): return 'c'
    if dt is object: return 'O'
    if dt in (int, IntShim): return 'i'
    if dt in (bool,): return 'b'
    if dt in (str,): return 'S'
    k = _np.dtype(dt).kind
    return {'u': 'i', 'U': 'S'}.get(k, k)

def _map(f, a):
    a = _np.asarray(a, dtype=object)
    r = _np.empty(a.shape, dtype=object)
    for ix in _np.ndindex(*a.shape): r[ix] = f(a[ix])
    return r.view(SymArray)

def wrap(r):
    """numeric results become arrays of Terms; ints and bools stay native"""
    if isinstance(r, SymArray): return r
    if isinstance(r, _np.ndarray):
        if r.dtype.kind in 'fc' : return _map(lift, r)
        if r.dtype.kind == 'O':
            if r.size == 0: return r.view(SymArray)
            if all(lift(t) is not None and not isinstance(t, (bool, SBool)) for t in r.flat): return _map(lift, r)
            if all(isinstance(t, (bool, SBool, _np.bool_)) for t in r.flat) : return r
            return r
        return r
    if isinstance(r, (float, complex, _np.floating, _np.complexfloating)): return lift(r)
    if isinstance(r, tuple) and type(r) is tuple: return tuple(wrap(x) for x in r)
    if isinstance(r, list): return [wrap(x) for x in r]
    return r

def has_term(x, depth=0):
    if isinstance(x, (Term, SBool)): return True
    if isinstance(x, _np.ndarray): return x.dtype == object
    if isinstance(x, (list, tuple)): return any(has_term(y) for y in x)
    return False

def toarr(x):
    a = _np.asarray(x) if not has_term(x) else _objarr(x)
    return wrap(a)

def _shape(x):
    if isinstance(x, _np.ndarray): return x.shape
    if isinstance(x, (list, tuple)):
        if not len(x): return (0,)
        s = [_shape(y) for y in x]
        if any(t != s[0] for t in s): raise ValueError('setting an array element with a sequence. '
                'The requested array has an inhomogeneous shape')
        return (len(x),)+s[0]
    return ()

def _objarr(x):
    if isinstance(x, _np.ndarray): return x
    sh = _shape(x)
    r = _np.empty(sh, dtype=object)
    def fill(y, ix):
        if isinstance(y, _np.ndarray):
            for j in _np.ndindex(*y.shape): r[ix+j] = y[j]
        elif isinstance(y, (list, tuple)):
            for i, z in enumerate(y): fill(z, ix+(i,))
        else:
            w = lift(y)
            r[ix] = y if w is None else w
    fill(x, ())
    return r

def unterm(x):
    """constant Terms to floats (for fallbacks on purely numeric data)"""
    return x

def minv(A, what='inv'):
    """the inverse as numpy's contract gives it: exact, LinAlgError if singular
    for all values.  Gauss-Jordan with pivots that are not identically zero."""
    A = _np.asarray(A, dtype=object)
    if A.ndim > 2:
        r = _np.empty(A.shape, dtype=object)
        for ix in _np.ndindex(*A.shape[:-2]): r[ix] = minv(A[ix])
        return r.view(SymArray)
    if A.ndim < 2: raise _np.linalg.LinAlgError('%d-dimensional array given. Array must be at least two-dimensional' % A.ndim)
    n = A.shape[0]
    if A.shape[0] != A.shape[1]: raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
    return solve_terms(A, [[T.ONE if i == j else T.ZERO for j in range(n)] for i in range(n)])

def solve_terms(A, B):
    n = len(A)
    M = [[lift(x) for x in A[i]]+[lift(x) for x in B[i]] for i in range(n)]
    m = len(M[0]) if n else 0
    rows = list(range(n)); perm = []
    for c in range(n):
        best = None
        for r in range(c, n):
            p = M[r][c]
            if p is T.ZERO: continue
            if not isconst(p) and identical(p): M[r][c] = T.ZERO; continue
            cost = (0 if isconst(p) else 1, sum(1 for x in M[r] if x is not T.ZERO))
            if best is None or cost < best[0]: best = (cost, r)
        if best is None: raise _np.linalg.LinAlgError('Singular matrix')
        r = best[1]
        M[c], M[r] = M[r], M[c]
        ip = T.inv(M[c][c])
        M[c] = [x if x is T.ZERO else T.mul(x, ip) for x in M[c]]
        for r in range(n):
            if r != c and M[r][c] is not T.ZERO:
                f = T.neg(M[r][c])
                M[r] = [x if y is T.ZERO else T.add(x, T.mul(f, y)) for x, y in zip(M[r], M[c])]
                M[r][c] = T.ZERO
    R = _np.empty((n, m-n), dtype=object)
    for i in range(n):
        for j in range(m-n): R[i, j] = M[i][n+j]
    return R.view(SymArray)

class Linalg:
    LinAlgError = _np.linalg.LinAlgError
    def inv(s, A): return HOOKS['inv'](toarr(A))
    def solve(s, A, B):
        A, B = toarr(A), toarr(B)
        if A.ndim > 2:
            B = _np.broadcast_to(B, A.shape[:-2]+B.shape[-2:]) if B.ndim < A.ndim else B
            r = _np.empty(B.shape, dtype=object)
            for ix in _np.ndindex(*A.shape[:-2]): r[ix] = solve_terms(A[ix], B[ix])
            return r.view(SymArray)
        if A.ndim < 2 or A.shape[0] != A.shape[1]: raise _np.linalg.LinAlgError('Last 2 dimensions of the array must be square')
        if len(A) != len(B): raise ValueError('solve: mismatch in its core dimension')
        if B.ndim == 1: return solve_terms(A, [[b] for b in B])[:, 0]
        return solve_terms(A, B)
    def multi_dot(s, L):
        r = toarr(L[0])
        for x in L[1:]: r = wrap(_np.dot(r, toarr(x)))
        return r
    def matrix_power(s, A, n):
        A = toarr(A)
        if n < 0: A, n = s.inv(A), -n
        r = NP.eye(A.shape[0])
        for _ in range(n): r = wrap(_np.matmul(r, A))
        return r
    def pinv(s, A):
        A = toarr(A)
        if A.shape[0] == A.shape[1]: return HOOKS['inv'](A)
        # of full rank, as a generic one is
        H = A.conj().T
        if A.shape[0] > A.shape[1]: return NP.matmul(HOOKS['inv'](NP.matmul(H, A)), H)
        return NP.matmul(H, HOOKS['inv'](NP.matmul(A, H)))
    def det(s, A):
        A = toarr(A); n = A.shape[0]
        if A.ndim != 2 or n > 5: raise Unsupported('det')
        def d(rows, c):
            if c == n: return T.ONE
            t = T.ZERO
            for i, r in enumerate(rows):
                e = lift(A[r, c])
                if e is not T.ZERO: t = t+(e if i % 2 == 0 else -e)*d(rows[:i]+rows[i+1:], c+1)
            return t
        return d(tuple(range(n)), 0)
    def norm(s, x, ord=None, axis=None, keepdims=False):
        x = toarr(x)
        if keepdims or not (ord in (None, 'fro') or ord == 2 and (x.ndim == 1 or isinstance(axis, int))): raise Unsupported('norm with options')
        r = wrap(_np.sum(_map(lambda e: fabs(lift(e))*fabs(lift(e)), x), axis=axis))
        return _map(lambda e: fsqrt(lift(e)), r) if isinstance(r, _np.ndarray) else fsqrt(lift(r))
    def cond(s, A): raise Unsupported('cond')
    def matrix_rank(s, A): raise Unsupported('rank')
    def __getattr__(s, n): raise Unsupported('numpy.linalg.'+n)

HOOKS = {'inv': minv, 'polyfit': lambda s, x, y, deg: s._polyfit(x, y, deg)}

def _ufunc(n, f):
    """element functions take numpy's out, where and dtype"""
    def g(s, *a, out=None, where=True, dtype=None, **k):
        for kk in ('casting', 'order', 'subok'): k.pop(kk, None)
        if isinstance(out, tuple): out, = out
        if where is True: 
            r = f(s, *a, **k)
            if out is None: return r
            out[...] = r
            return out
        B = _np.broadcast_arrays(*[_np.asarray(toarr(x), dtype=object) for x in a], _np.asarray(where, dtype=object))
        if out is None: out = s.zeros(B[0].shape)
        for ix in _np.ndindex(*B[0].shape):
            if bool(B[-1][ix]): out[ix] = f(s, *[x[ix] for x in B[:-1]], **k)
        return out
    g.__name__ = n
    if n in ('maximum', 'minimum'): g.reduce = lambda x, axis=0, **k: getattr(NP, n[:3])(x, axis)
    return g
def _nb(n, f):
    """numpy arguments the stand-in does not know are not the caller's mistake"""
    def g(s, *a, **k):
        try: return f(s, *a, **k)
        except TypeError as e:
            if 'NPModule.'+n in str(e): raise Unsupported(f'np.{n}: {e}')
            raise
    g.__name__ = n; g.__dict__.update(f.__dict__)
    return g

class RC:
    def __init__(s, o): s.o = o
    def __getitem__(s, k):
        if isinstance(k, tuple): k2 = tuple(_terminate_slice(x) for x in k)
        else: k2 = _terminate_slice(k)
        r = s.o[k2]
        return wrap(r)
def _terminate_slice(x):
    if isinstance(x, slice): return x
    if isinstance(x, Term):
        r = _np.empty(1, dtype=object); r[0] = x; return r
    return x

class NPModule(types.ModuleType):
    ndarray = _np.ndarray
    pi = PI
    linalg = Linalg()
    inf, nan, newaxis = _np.inf, _np.nan, None
    def __init__(s):
        super().__init__('numpy')
        s.r_ = RC(_np.r_); s.c_ = RC(_np.c_)
        s.linalg = Linalg()
    def array(s, x, dtype=None, copy=True, ndmin=0, **k):
        if isinstance(x, (types.GeneratorType, map, zip)): return _np.array(x)
        kd = None if dtype is None else _kind(dtype)
        if kd in ('f', 'c', 'O') or (kd is None and has_term(x)):
            r = _objarr(x) if has_term(x) else _np.array(x)
            r = wrap(r.astype(object) if kd in ('f', 'c') and r.dtype != object else r)
            if isinstance(r, _np.ndarray) and copy: r = r.copy()
            r = r if isinstance(r, SymArray) or r.dtype != object else r.view(SymArray)
        elif kd in ('i', 'b') and has_term(x):
            r = toarr(x).view(SymArray).astype(dtype)
        else:
            r = _np.array(x, dtype=dtype) if kd is not None else wrap(_np.array(x))
        while r.ndim < ndmin: r = r[None]
        return r
    def asarray(s, x, dtype=None, **k):
        if isinstance(x, _np.ndarray) and dtype is None: return x
        return s.array(x, dtype)
    asanyarray = asarray
    matrix = _np.matrix
    def _fill(s, shape, v, dtype):
        k = _kind(dtype)
        if k in 'fcO':
            if isinstance(shape, Term): shape = int(shape)
            r = _np.empty(shape, dtype=object)
            r[...] = lift(v)
            return r.view(SymArray)
        return _np.full(shape, v, dtype=dtype)
    def zeros(s, shape, dtype=None, **k): return s._fill(shape, 0, dtype)
    def ones(s, shape, dtype=None, **k): return s._fill(shape, 1, dtype)
    def empty(s, shape, dtype=None, **k): return s._fill(shape, 0, dtype)
    def full(s, shape, v, dtype=None, **k): return s._fill(shape, v, dtype)
    def zeros_like(s, a, dtype=None): return s.zeros(_shape(a), dtype)
    def ones_like(s, a, dtype=None): return s.ones(_shape(a), dtype)
    def empty_like(s, a, dtype=None): return s.zeros(_shape(a), dtype)
    def full_like(s, a, v, dtype=None): return s.full(_shape(a), v, dtype)
    def eye(s, n, m=None, k=0, dtype=None): return wrap(_np.eye(int(n), m, k).astype(object))
    def identity(s, n, dtype=None): return s.eye(n)
    def _el(s, f, x):
        if isinstance(x, (list, tuple, _np.ndarray)): 
            r = _map(lambda t: f(lift(t)), toarr(x))
            return r if r.ndim else r[()]
        t = lift(x)
        if t is None: raise TypeError('ufunc on %s' % type(x))
        return f(t)
    def abs(s, x): return s._el(fabs, x)
    absolute = abs
    def sqrt(s, x): return s._el(fsqrt, x)
    def exp(s, x): return s._el(fexp, x)
    def log(s, x): return s._el(flog, x)
    def log10(s, x): return s._el(lambda t: t.log10(), x)
    def log2(s, x): return s._el(lambda t: flog(t)/flog(T.const(2)), x)
    def sin(s, x): return s._el(lambda t: t.sin(), x)
    def cos(s, x): return s._el(lambda t: t.cos(), x)
    def tan(s, x): return s._el(lambda t: t.tan(), x)
    def sinh(s, x): return s._el(T.fsinh, x)
    def cosh(s, x): return s._el(T.fcosh, x)
    def tanh(s, x): return s._el(lambda t: t.tanh(), x)
    def arctan(s, x): return s._el(lambda t: t.arctan(), x)
    def real(s, x): return s._el(lambda t: t.real, x)
    def imag(s, x): return s._el(lambda t: t.imag, x)
    def conj(s, x): return s._el(lambda t: t.conjugate(), x)
    conjugate = conj
    def angle(s, x, deg=False):
        return s._el((lambda t: fangle(t)*180/PI) if deg else fangle, x)
    def square(s, x): return s._el(lambda t: t*t, x)
    def floor(s, x): return s._el(lambda t: T.fn('floor', t), x)
    def ceil(s, x): return s._el(lambda t: T.fn('ceil', t), x)
    def sign(s, x):
        def f(t):
            if t.sgn == '+': return T.ONE
            return T.ONE if t > 0 else T.MONE if t < 0 else T.ZERO
        return s._el(f, x)
    def power(s, x, y):
        if isinstance(x, Term) and not isinstance(y, (list, tuple, _np.ndarray)): return x**y
        return wrap(toarr(x)**y)
    float_power = power
    def hypot(s, x, y): return _map2(lambda p, q: fsqrt(p*p+q*q), toarr(x), toarr(y))
    def arctan2(s, y, x): return _map2(lambda p, q: fangle(q+T.I_*p), toarr(y), toarr(x))
    def expm1(s, x): return s._el(lambda t: fexp(t)-1, x)
    def log1p(s, x): return s._el(lambda t: flog(t+1), x)
    def exp2(s, x): return s._el(lambda t: fexp(t*flog(T.const(2))), x)
    def mean(s, x, axis=None, **k):
        a = toarr(x)
        return wrap(_np.sum(a, axis=axis))/(a.size if axis is None else a.shape[axis])
    average = mean
    def divide(s, x, y): return toarr(x)/toarr(y) if isinstance(x, (list, tuple, _np.ndarray)) or isinstance(y, (list, tuple, _np.ndarray)) else lift(x)/lift(y)
    true_divide = divide
    def deg2rad(s, x): return s._el(lambda t: t*PI/180, x)
    radians = deg2rad
    def rad2deg(s, x): return s._el(lambda t: t*180/PI, x)
    degrees = rad2deg
    def isinf(s, x):
        f = lambda t: t.op == 'nonfin' and ('inf' in t.args[0] or _unk(t))
        if isinstance(x, (list, tuple, _np.ndarray)):
            return _np.array([f(lift(t)) for t in toarr(x).flat], dtype=bool).reshape(_shape(x))
        return f(lift(x))
    def isnan(s, x):
        f = lambda t: t.op == 'nonfin' and ('nan' in t.args[0] or _unk(t))
        if isinstance(x, (list, tuple, _np.ndarray)):
            return _np.array([f(lift(t)) for t in toarr(x).flat], dtype=bool).reshape(_shape(x))
        return f(lift(x))
    def isfinite(s, x):
        f = lambda t: t.op != 'nonfin'
        if isinstance(x, (list, tuple, _np.ndarray)):
            return _np.array([f(lift(t)) for t in toarr(x).flat], dtype=bool).reshape(_shape(x))
        return f(lift(x))
    def isscalar(s, x): return isinstance(x, Term) or _np.isscalar(x)
    def iscomplexobj(s, x): return True if has_term(x) else _np.iscomplexobj(x)
    def _red(s, x, axis, best):
        a = toarr(x)
        if axis is None:
            l = list(a.flat)
            if not l: raise ValueError('zero-size array to reduction operation')
            r = l[0]
            for t in l[1:]: r = best(r, t)
            return r
        a = _np.moveaxis(a, axis, 0)
        r = a[0]
        for t in a[1:]:
            r = _map2(best, r, t)
        return r
    def max(s, x, axis=None, **k): return s._red(x, axis, lambda p, q: q if q > p else p)
    def min(s, x, axis=None, **k): return s._red(x, axis, lambda p, q: q if q < p else p)
    amax, amin = max, min
    def maximum(s, x, y): return _map2(lambda p, q: q if q > p else p, toarr(x), toarr(y))
    def minimum(s, x, y): return _map2(lambda p, q: q if q < p else p, toarr(x), toarr(y))
    def _argaxis(s, f, x, axis):
        a = _np.moveaxis(toarr(x), axis, 0)
        r = _np.empty(a.shape[1:], dtype=int)
        for ix in _np.ndindex(*r.shape): r[ix] = f(a[(slice(None),)+ix])
        return r
    def argmax(s, x, axis=None, **k):
        if axis is not None: return s._argaxis(s.argmax, x, axis)
        l = list(toarr(x).flat); b = 0
        for i in range(1, len(l)):
            if l[i] > l[b]: b = i
        return b
    def argmin(s, x, axis=None, **k):
        if axis is not None: return s._argaxis(s.argmin, x, axis)
        l = list(toarr(x).flat); b = 0
        for i in range(1, len(l)):
            if l[i] < l[b]: b = i
        return b
    def argsort(s, x, axis=-1, **k):
        a = toarr(x)
        if not isinstance(a, SymArray): return _np.argsort(a, axis, **k)
        if a.ndim != 1: raise Unsupported('argsort')
        import functools
        c = lambda i, j: -1 if a[i] < a[j] else 1 if a[j] < a[i] else 0
        return _np.array(sorted(range(len(a)), key=functools.cmp_to_key(c)), dtype=int)
    def sort(s, x, **k): 
        a = toarr(x)
        return a[s.argsort(a)]
    def unique(s, x, **k):
        if not has_term(x) or not isinstance(x, _np.ndarray) and not has_term(list(x)): return _np.unique(x, **k)
        if k: raise Unsupported('unique options')
        a = s.sort(x); out = []
        for t in a:
            if not out or not bool(out[-1] == t): out.append(t)
        return s.array(out)
    def sum(s, x, axis=None, where=None, **k):
        if isinstance(x, types.GeneratorType): raise TypeError('Calling np.sum(generator) is deprecated. Use np.sum(np.fromiter(generator)) or the python sum builtin instead.')
        if where is not None: x = s.where(where, toarr(x), 0)
        k.pop('dtype', None)
        return wrap(_np.sum(toarr(x), axis=axis, **k))
    def all(s, x, axis=None, **k):
        if axis is not None: return _np.all(x, axis)
        return all(bool(t) for t in _flat(x))
    def any(s, x, axis=None, **k):
        if axis is not None: return _np.any(x, axis)
        return any(bool(t) for t in _flat(x))
    def isclose(s, a, b, rtol=1e-5, atol=1e-8, **k):
        # numerical closeness is taken as equality (stated assumption)
        A, B = _np.broadcast_arrays(toarr(a), toarr(b))
        r = _np.array([bool(lift(x) == lift(y)) for x, y in zip(A.flat, B.flat)], dtype=bool).reshape(A.shape)
        return r if r.ndim else bool(r)
    def allclose(s, a, b, rtol=1e-5, atol=1e-8, **k):
        A, B = _np.broadcast_arrays(toarr(a), toarr(b))
        return all(bool(lift(x) == lift(y)) for x, y in zip(A.flat, B.flat))
    def array_equal(s, a, b):
        A, B = toarr(a), toarr(b)
        return A.shape == B.shape and all(bool(lift(x) == lift(y)) for x, y in zip(A.flat, B.flat))
    def dot(s, a, b, **k): return wrap(_np.dot(toarr(a), toarr(b), **k))
    def matmul(s, a, b, **k): return wrap(_np.matmul(toarr(a), toarr(b), **k))
    def unwrap(s, p, discont=None, axis=-1, *, period=None):
        """numpy's contract for angles in (-pi, pi]: a jump of more than pi is one turn"""
        if discont is not None or period is not None: raise Unsupported('unwrap options')
        a = _np.moveaxis(toarr(p), axis, 0)
        for t in a.flat:
            if not (lift(t) is T.ZERO or lift(t).op == 'angle' or isconst(lift(t))): raise Unsupported('unwrap of other than angles')
        r = a.copy()
        for ix in _np.ndindex(*a.shape[1:]):
            turns = 0
            for k in range(1, a.shape[0]):
                d = lift(a[(k,)+ix])-lift(a[(k-1,)+ix])
                if d > PI: turns -= 2
                elif d < -PI: turns += 2
                if turns: r[(k,)+ix] = lift(a[(k,)+ix])+turns*PI
        return _np.moveaxis(r, 0, axis)
    def interp(s, x, xp, fp, left=None, right=None, period=None):
        if period is not None: raise Unsupported('np.interp period')
        xp, fp = list(toarr(xp)), list(toarr(fp))
        l, r = fp[0] if left is None else lift(left), fp[-1] if right is None else lift(right)
        def f(t):
            if t < xp[0]: return l
            if t > xp[-1]: return r
            for k in range(1, len(xp)):
                if t <= xp[k]:
                    if t == xp[k]: return fp[k]
                    return fp[k-1]+(fp[k]-fp[k-1])*(t-xp[k-1])/(xp[k]-xp[k-1])
            return fp[-1]
        return s._el(f, x)
    def block(s, L):
        def depth(x): return 1+max((depth(y) for y in x), default=0) if isinstance(x, list) else 0
        n = depth(L)
        def rec(x, d):
            if isinstance(x, list): a = [rec(y, d+1) for y in x]; return _np.concatenate(a, axis=-(n-d))
            x = toarr(x)
            return x[(None,)*max(n-x.ndim, 0)]
        return wrap(rec(L, 0))
    def fromiter(s, it, dtype=None, count=-1, **k):
        l = list(it)
        return s.array(l if count is None or count < 0 else l[:count], dtype=dtype)
    def iscomplex(s, x):
        r = _np.array([bool(lift(t).imag != 0) for t in toarr(x).flat], dtype=bool).reshape(_shape(x))
        return r if r.ndim else bool(r)
    def isreal(s, x): 
        r = s.iscomplex(x)
        return ~r if isinstance(r, _np.ndarray) else not r
    def isrealobj(s, x): return not s.iscomplexobj(x)
    def arctanh(s, x): return s._el(lambda t: (flog(1+t)-flog(1-t))/2, x)
    def arcsinh(s, x): return s._el(lambda t: flog(t+fsqrt(t*t+1)), x)
    def arccosh(s, x): return s._el(lambda t: flog(t+fsqrt(t+1)*fsqrt(t-1)), x)
    def arcsin(s, x):
        def f(t):
            r = -T.I_*flog(T.I_*t+fsqrt(1-t*t))
            return r.real if t.sort == 'R' else r
        return s._el(f, x)
    def arccos(s, x): return s._el(lambda t: PI/2-s.arcsin(t), x)
    def sinc(s, x): return s._el(lambda t: T.ONE if bool(t == 0) else (PI*t).sin()/(PI*t), x)
    def fabs(s, x): return s.abs(x)
    def polyfit(s, x, y, deg, **k):
        x, y = toarr(x), toarr(y)
        return HOOKS['polyfit'](s, x, y, deg)
    def _polyfit(s, x, y, deg):
        if deg+1 != len(x): raise Unsupported('polyfit over-determined')
        if deg == 2:        # the interpolating polynomial, from divided differences
            s1, s2 = (y[1]-y[0])/(x[1]-x[0]), (y[2]-y[1])/(x[2]-x[1])
            a = (s2-s1)/(x[2]-x[0]); b = s1-a*(x[0]+x[1])
            return s.array([a, b, y[0]-b*x[0]-a*x[0]*x[0]])
        V = [[t**(deg-j) for j in range(deg+1)] for t in x]
        return solve_terms(V, [[t] for t in y])[:, 0]
    def linspace(s, start, stop, num=50, endpoint=True, **k):
        if not isinstance(num, SymInt): 
            if not has_term([start, stop]): return wrap(_np.linspace(start, stop, int(num), endpoint, **k))
            rs = k.pop('retstep', False); k.pop('dtype', None)
            if k: raise Unsupported('linspace options')
            a, b, n = lift(start), lift(stop), int(num)
            if not endpoint: r = s.array([a+(b-a)*i/n for i in range(n)])
            elif n == 1: r = s.array([a])
            else: r = s.array([a+(b-a)*i/(n-1) if i < n-1 else b for i in range(n)])
            return (r, (b-a)/(n-1 if endpoint else n)) if rs else r
        if k or not endpoint: raise Unsupported('linspace options')
        a, b = lift(start), lift(stop)
        t = T.sym('between%d' % len(GENERIC), 'R', '+'); GENERIC.append(t)
        ON_GENERIC[0](t)
        return s.array([a, a+(b-a)*t, b])
    def vectorize(s, f, **k):
        if k: raise Unsupported('vectorize options')
        def g(*a):
            A = _np.broadcast_arrays(*[toarr(x) for x in a])
            r = _np.empty(A[0].shape, dtype=object)
            for ix in _np.ndindex(*r.shape): r[ix] = lift(f(*[x[ix] for x in A]))
            return r.view(SymArray)
        return g
    class _Lib: pass
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        f = getattr(_np, n)        # AttributeError as numpy itself raises (np.complex …)
        if f is _np.float64: return FloatShim
        if f is _np.complex128: return ComplexShim
        if isinstance(f, type): return f
        if callable(f):
            def g(*a, **k):
                a2 = [toarr(x) if isinstance(x, (list, tuple)) and has_term(x) and n not in _seqfun else
                      [toarr(y) if isinstance(y, (list, tuple, Term)) else y for y in x] if n in _seqfun and isinstance(x, (list, tuple)) else x for x in a]
                k = {kk: v for kk, v in k.items() if not (kk == 'dtype' and v in (FloatShim, ComplexShim, float, complex))}
                return wrap(f(*a2, **k))
            if isinstance(f, _np.ufunc):
                for m in ('outer', 'reduce', 'accumulate'):
                    setattr(g, m, (lambda h: lambda *a, **k: wrap(h(*[toarr(x) if has_term(x) else x for x in a], **k)))(getattr(f, m)))
            return g
        return f
for _n in ('abs absolute fabs sqrt exp log log10 log2 sin cos tan sinh cosh tanh arctan arctan2 arcsin arccos arctanh arcsinh arccosh conj conjugate square floor ceil sign '
           'power float_power hypot expm1 log1p exp2 divide true_divide deg2rad radians rad2deg degrees maximum minimum').split():
    setattr(NPModule, _n, _ufunc(_n, NPModule.__dict__[_n]))
for _n, _f in list(NPModule.__dict__.items()):
    if isinstance(_f, types.FunctionType) and not _n.startswith('_'): setattr(NPModule, _n, _nb(_n, _f))
_seqfun = {'hstack', 'vstack', 'concatenate', 'stack', 'dstack', 'column_stack', 'block', 'append', 'row_stack'}
def _unk(t):
    if t.args[0] == '?': raise Unsupported('test of an unknown non finite value')
    return False
def _map2(f, a, b):
    A, B = _np.broadcast_arrays(_np.asarray(a, dtype=object), _np.asarray(b, dtype=object))
    r = _np.empty(A.shape, dtype=object)
    for ix in _np.ndindex(*A.shape): r[ix] = f(lift(A[ix]), lift(B[ix]))
    r = r.view(SymArray)
    return r if r.ndim else r[()]
def _flat(x):
    if isinstance(x, _np.ndarray): return list(x.flat)
    if isinstance(x, (list, tuple)):
        r = []
        for y in x: r += _flat(y)
        return r
    return [x]

# ---- builtins
class _FM(type):
    def __instancecheck__(c, x): return _isinstance(x, float)
    def __call__(c, x=0.):
        if isinstance(x, Term):
            if x.sort == 'C': raise TypeError("float() argument must be a string or a real number, not 'complex'")
            return x
        if isinstance(x, str) and x.strip() in TOKENS: return TOKENS[x.strip()]
        if isinstance(x, _np.ndarray) and x.dtype == object and x.size == 1: return c(x.item())
        v = float(x)
        if isinstance(x, str) and T.TOKEN <= v < T.TOKEN+10**11 and v == int(v): return T._byid(int(v)-T.TOKEN)
        return v
class FloatShim(metaclass=_FM):
    fromhex = float.fromhex
class SymInt(int):
    """an unknown number of sample points (arrays of that many points have both ends and an arbitrary point between)"""
class _IM(type):
    def __instancecheck__(c, x): return _isinstance(x, int)
    def __call__(c, *a, **k):
        if len(a) == 1 and isinstance(a[0], Term) and a[0].op in ('ceil', 'floor'): return SymInt(3)
        if len(a) == 1 and isinstance(a[0], Term) and a[0].op == 'add' and any(t.op in ('ceil', 'floor') for t in a[0].args): return SymInt(3)
        return int(*a, **k)
class IntShim(metaclass=_IM):
    from_bytes = int.from_bytes
class _CM(type):
    def __instancecheck__(c, x): return _isinstance(x, complex)
    def __call__(c, *a, **k):
        if has_term(list(a)) or has_term(list(k.values())):
            r = a[0] if a else k.get('real', 0); i = a[1] if len(a) > 1 else k.get('imag', 0)
            return lift(r)+I_*lift(i)
        return complex(*a, **k)
class ComplexShim(metaclass=_CM): pass
I_ = T.I_
TOKENS = {}

def _isinstance(x, c):
    if isinstance(c, tuple): return any(_isinstance(x, k) for k in c)
    if c is FloatShim: c = float
    if c is ComplexShim: c = complex
    if c is IntShim: c = int
    if isinstance(x, Term):
        if c in (Term, object): return True
        if isinstance(c, type):
            if x.sort == 'R': return c in (float, _np.float64, _np.floating, numbers.Real, numbers.Number, _np.number, numbers.Complex)
            return c in (complex, _np.complex128, _np.complexfloating, numbers.Number, numbers.Complex, _np.number)
        return isinstance(x, c)
    if isinstance(x, SBool): return c is bool or c is int
    return isinstance(x, c)

def _round(x, n=None):
    if isinstance(x, Term): return x.__round__(n)
    return round(x, n) if n is not None else round(x)

class Stub(types.ModuleType):
    """matplotlib & co"""
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        return StubObj()
class StubObj:
    def __call__(s, *a, **k): return s
    def __getattr__(s, n): 
        if n.startswith('__'): raise AttributeError(n)
        return s
    def __iter__(s): return iter(())
    def __getitem__(s, k): return s

NP = NPModule()

def interp1d(*a, **k): return HOOKS['interp1d'](*a, **k)
def odeint(*a, **k): return HOOKS['odeint'](*a, **k)
def _uns(n):
    def f(*a, **k): raise Unsupported(n)
    return f
HOOKS['odeint'] = _uns('odeint')

class Interp:
    """scipy's interp1d as its documentation has it: linear, step or, for higher orders, some
    combination of the data whose coefficients depend only on nodes, order and point"""
    def __init__(s, x, y, kind='linear', axis=-1, copy=True, bounds_error=None, fill_value=_np.nan, assume_sorted=False):
        x, y = toarr(x), toarr(y)
        if x.ndim != 1: raise ValueError('the x array must have exactly one dimension.')
        if y.ndim == 0: raise ValueError('the y array must have at least one dimension.')
        y = _np.moveaxis(y, axis, 0)
        s.axis = axis
        if len(x) != y.shape[0]: raise ValueError('x and y arrays must be equal in length along interpolation axis.')
        if not assume_sorted:
            ix = NP.argsort(x); x, y = x[ix], y[ix]
        kind = {'linear': 1, 'zero': 0, 'slinear': 1, 'quadratic': 2, 'cubic': 3}.get(kind, kind)
        if not isinstance(kind, (int, _np.integer)): raise Unsupported('interp1d kind %r' % (kind,))
        s.kind = int(kind)
        s.x, s.y = [lift(t) for t in x], y
        for p, q in zip(s.x, s.x[1:]):
            if p == q:
                if s.kind > 1: raise ValueError('Expect x to not have duplicates')
                raise Unsupported('interp1d with equal nodes')
        if len(s.x) <= s.kind: raise ValueError(f'The number of derivatives at boundaries does not match: x and y arrays must have at least {s.kind+1} entries')
        s.extra = isinstance(fill_value, str) and fill_value == 'extrapolate'
        if s.extra and bounds_error: raise ValueError('Cannot extrapolate and raise at the same time.')
        s.fill = None if s.extra else fill_value if isinstance(fill_value, tuple) else (fill_value, fill_value)
        s.bounds = bounds_error if bounds_error is not None else not s.extra and fill_value is _np.nan
        if s.fill is not None and any(isinstance(f, float) and f != f for f in s.fill) and not s.bounds: raise Unsupported('interp1d filling nan')
    def __call__(s, x):
        X = toarr(x)
        tail = s.y.shape[1:]
        r = _np.empty(X.shape+tail, dtype=object)
        for ix in _np.ndindex(*X.shape):
            v = s.at(lift(X[ix]))
            if tail:
                for j in _np.ndindex(*tail): r[ix+j] = lift(v[j])
            else: r[ix] = lift(v)
        r = r.view(SymArray)
        if s.axis not in (0, -1) and tail and s.axis != -r.ndim: raise Unsupported('interp1d axis')
        if s.axis == -1 and tail: raise Unsupported('interp1d axis')
        return r
    def at(s, x):
        n = len(s.x)
        if not s.extra:
            if x < s.x[0]:
                if s.bounds: raise ValueError('A value in x_new is below the interpolation range.')
                return s._full(s.fill[0])
            if x > s.x[-1]:
                if s.bounds: raise ValueError('A value in x_new is above the interpolation range.')
                return s._full(s.fill[1])
        for i in range(n):
            if x == s.x[i]: return s.y[i]
        if s.kind == 1:
            i = 0
            while i < n-2 and x > s.x[i+1]: i += 1
            t = (x-s.x[i])/(s.x[i+1]-s.x[i])
            return s.y[i]+(s.y[i+1]-s.y[i])*t
        if s.kind == 0:
            i = 0
            while i < n-1 and x > s.x[i+1]: i += 1
            return s.y[i]
        r = 0
        for i in range(n): r = r+s.y[i]*s.weight(i, x)
        return r
    def _full(s, v):
        r = _np.empty(s.y.shape[1:], dtype=object)
        r[...] = lift(v)
        return r[()] if r.ndim == 0 else r
    def weight(s, i, x):
        if s.kind == len(s.x)-1:      # the interpolating polynomial
            r = 1
            for j in range(len(s.x)):
                if j != i: r = r*(x-s.x[j])/(s.x[i]-s.x[j])
            return r
        k = (tuple(t.id for t in s.x), s.kind, i, x.id)
        if k not in WEIGHTS: WEIGHTS[k] = T.sym('spline%d' % len(WEIGHTS), 'R', '')
        return WEIGHTS[k]
WEIGHTS = {}
GENERIC = []
ON_GENERIC = [lambda t: None]
HOOKS['interp1d'] = Interp

def _mathmod():
    m = types.ModuleType('math')
    for n in dir(math):
        if not n.startswith('__'): setattr(m, n, getattr(math, n))
    m.pi = PI
    for n in ('sqrt', 'exp', 'log', 'sin', 'cos', 'tan', 'sinh', 'cosh', 'tanh', 'log10', 'floor', 'ceil'):
        setattr(m, n, (lambda n: lambda x: getattr(NP, n)(x))(n))
    m.isinf = NP.isinf; m.isnan = NP.isnan; m.isfinite = NP.isfinite
    m.fabs = NP.abs
    return m
def _cmathmod():
    m = _mathmod()
    m.phase = fangle
    return m

C0, MU0 = T.sym('c0', 'R', '+'), T.sym('mu0', 'R', '+')
E0 = T.inv(T.mul(MU0, T.mul(C0, C0)))
CONST_VAL = {'c0': 299792458.0, 'mu0': 1.25663706127e-06}

class Later(types.ModuleType):
    """scipy: what has no contract is unsupported when it is called"""
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        getattr(__import__(s.__name__, fromlist=['x']), n)      # AttributeError as scipy's
        return _uns(s.__name__+'.'+n)
def scipy_modules():
    sc = types.ModuleType('scipy'); sc.__path__ = []
    it = Later('scipy.interpolate'); it.interp1d = interp1d
    ig = Later('scipy.integrate'); ig.odeint = odeint
    la = Later('scipy.linalg'); sc.linalg = la; la.LinAlgError = _np.linalg.LinAlgError
    for n in ('inv', 'solve', 'det', 'norm', 'pinv'): setattr(la, n, getattr(NP.linalg, n))
    la.block_diag = lambda *a: NP.block([[toarr(x) if i == j else _np.zeros((NP.shape(x)[0], NP.shape(y)[1])) for j, y in enumerate(a)] for i, x in enumerate(a)])
    cs = types.ModuleType('scipy.constants')
    cs.speed_of_light = cs.c = C0; cs.mu_0 = MU0; cs.epsilon_0 = E0; cs.pi = PI
    sc.interpolate, sc.integrate, sc.constants = it, ig, cs
    return {'scipy': sc, 'scipy.linalg': la, 'scipy.interpolate': it, 'scipy.integrate': ig, 'scipy.constants': cs}

# ---- text with numbers printed as tokens (c.printing())
import ast as _ast
def untoken(x):
    if isinstance(x, (int, float)) and not isinstance(x, bool) and T.TOKEN <= x < T.TOKEN+10**11 and x == int(x): return T._byid(int(x)-T.TOKEN)
    if isinstance(x, dict): return {untoken(k): untoken(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)) and type(x) in (list, tuple, set): return type(x)(untoken(v) for v in x)
    return x
class _Tok(_ast.NodeTransformer):
    def __init__(s): s.names = {}
    def visit_Constant(s, n):
        v = untoken(n.value)
        if v is n.value: return n
        k = f'__token{v.id}'; s.names[k] = v
        return _ast.copy_location(_ast.Name(id=k, ctx=_ast.Load()), n)
def _eval(src, g=None, l=None, /, **kw):
    g = kw.get('globals', g); l = kw.get('locals', l)
    if g is None:
        f = sys._getframe(1); g = f.f_globals; l = f.f_locals if l is None else l
    elif l is None: l = g
    if isinstance(src, str):
        t = _Tok(); e = t.visit(_ast.parse(src.lstrip(' \t'), mode='eval'))
        src = compile(_ast.fix_missing_locations(e), '<string>', 'eval')
        if t.names: l = dict(l, **t.names)
    return eval(src, g, l)
def _astmod():
    m = types.ModuleType('ast'); m.__dict__.update({k: v for k, v in vars(_ast).items() if k != '__name__'})
    m.literal_eval = lambda x: untoken(_ast.literal_eval(x))
    return m

class Loader:
    """one private copy of the package"""
    def __init__(s, root=None, builtins_over=None):
        s.root = os.path.join(root or REPO, 'src')
        s.mods = {}
        s.ext = {'numpy': NP, 'numpy.linalg': NP.linalg, 'math': _mathmod(), 'cmath': _cmathmod()}
        s.ext['ast'] = _astmod()
        s.ext.update(scipy_modules())
        b = dict(vars(builtins))
        b.update({'__import__': s.imp, 'isinstance': _isinstance, 'float': FloatShim, 'complex': ComplexShim, 'int': IntShim,
                  'round': _round, 'eval': _eval, 'print': lambda *a, **k: None})
        b.update(builtins_over or {})
        s.builtins = b
    def find(s, name):
        p = os.path.join(s.root, *name.split('.'))
        if os.path.isfile(p+'.py'): return p+'.py', False
        if os.path.isfile(os.path.join(p, '__init__.py')): return os.path.join(p, '__init__.py'), True
        return None, None
    def load(s, name):
        if name in s.mods: return s.mods[name]
        path, pkg = s.find(name)
        if path is None: raise ModuleNotFoundError(f"No module named '{name}'", name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition('.')[0]
        if pkg: m.__path__ = [os.path.dirname(path)]
        m.__dict__['__builtins__'] = s.builtins
        s.mods[name] = m
        with open(path) as f: src = f.read()
        try:
            exec(compile(src, path, 'exec'), m.__dict__)
        except BaseException:
            s.mods.pop(name, None); raise
        par, _, leaf = name.rpartition('.')
        if par and par in s.mods: setattr(s.mods[par], leaf, m)
        return m
    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__']
            for _ in range(level-1): pkg = pkg.rpartition('.')[0]
            full = pkg+('.'+name if name else '')
        else: full = name
        top = full.split('.')[0]
        if s.find(top)[0] and top == 'pyRFtk':
            parts = full.split('.')
            for i in range(1, len(parts)+1): m = s.load('.'.join(parts[:i]))
            if not fromlist: return s.mods[parts[0]] if not level else m
            for f in fromlist:
                if f != '*' and not hasattr(m, f) and s.find(full+'.'+f)[0]: s.load(full+'.'+f)
            return m
        if full in s.ext:
            if fromlist: return s.ext[full]
            return s.ext[top]
        if top == 'matplotlib': return Stub(full)
        if full in ('numpy.typing', 'numpy.exceptions') or full.startswith('numpy._core'): return __import__(name, globals, locals, fromlist, level)      # numpy's own
        if top in ('numpy', 'scipy'): raise Unsupported('import '+full)
        return __import__(name, globals, locals, fromlist, level)

def load_repo(root=None, **k):
    L = Loader(root, **k)
    L.load('pyRFtk')
    # what a caller of the package sees
    return L
