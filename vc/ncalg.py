"""Obligations for matrices of every size.

The functions that treat matrices as wholes (conversions) are executed, from the
current source, on matrices whose number of rows N and number of frequencies nF are
left open.  A matrix is an element of the algebra generated by one arbitrary matrix
and the diagonal matrices of port quantities:

    sum of  d0 G1 d1 G2 ... dk      Gi: a generator or its inverse, di: diagonal

A diagonal is a Term; symbols declared `indexed` take one value per port.  Two
elements are equal for every N when the coefficients of each word agree, the di of
different positions depending on independent values of the indexed symbols.
inv(E) is answered by the change of variables that makes E a generator (E must be
linear in an input matrix), after which the function is executed again; this covers
all matrices for which E is invertible, that is the precondition of inv.
Loops over the frequencies are executed for one arbitrary frequency; a body that
carries a value from one frequency to the next is not accepted (see `Once`)."""
import ast, os, types, itertools
import numpy as _np
from . import term as T, gf
from .term import Term, Unsupported, lift

INDEXED = set()          # names of the symbols with one value per port

def indexed(t): return any(s.args[0] in INDEXED for s in T.syms([t]))
_ren = {}
def rename(t, j):
    """t at the j-th independent port"""
    if not indexed(t): return t
    k = (t.id, j)
    if k not in _ren:
        if t.op == 'sym': _ren[k] = T.sym(f'{t.args[0]}@{j}', t.sort, t.sgn)
        else:
            a = [rename(x, j) if isinstance(x, Term) else x for x in t.args]
            _ren[k] = rebuild(t, a)
    return _ren[k]
def rebuild(t, a):
    f = {'add': lambda *x: fold(T.add, x), 'mul': lambda *x: fold(T.mul, x), 'neg': T.neg, 'inv': T.inv, 'sqrt': T.fsqrt, 'conj': T.fconj, 're': T.fre, 'im': T.fim, 'abs': T.fabs,
         'exp': T.fexp, 'log': T.flog}.get(t.op)
    if t.op == 'ipow': return T.ipow(*a)
    if f is None: raise Unsupported(f'renaming of {t.op}')
    return f(*a)
def fold(f, xs):
    r = xs[0]
    for x in xs[1:]: r = f(r, x)
    return r

_fp = {}
def print_(t):
    """values of t at fixed points: equal for equal functions"""
    if t.op in ('const', 'sym'): return t.id
    if t.id not in _fp:
        out = []
        for i in range(60):
            if i >= len(_gfs): _gfs.append(gf.GF(f'fingerprint/{i}'))
            try: out.append((i, _gfs[i].ev(t)))
            except gf.Bad: continue
            if len(out) == 3: break
        _fp[t.id] = tuple(out) if len(out) == 3 else t.id
    return _fp[t.id]
_gfs = []
def zero_(t):
    if t is T.ZERO: return True
    p = print_(t)
    return isinstance(p, tuple) and all(v == (0, 0) for i, v in p)
class Again(Exception):
    """an inverse was met: start again with generator g replaced"""

_cn = {}
def clean(t):
    """a value that does not depend on the port is written without ports"""
    if not indexed(t): return t
    if t.id not in _cn:
        _cn[t.id] = t
        for c in (T.ONE, T.const(-1)):
            if zero_(T.add(t, T.neg(c))): _cn[t.id] = c; break
        else:
            if zero_(T.add(rename(t, 0), T.neg(rename(t, 1)))): _cn[t.id] = rename(t, 'c')
    return _cn[t.id]
class El:
    """element of the algebra: {word: [tuples of diagonals]}"""
    __slots__ = ('d',)
    def __init__(s, d): s.d = {w: l for w, l in d.items() if l}
    @staticmethod
    def diag(t): return El({(): [(lift(t),)]}) if lift(t) is not T.ZERO else El({})
    def __add__(s, o):
        d = dict(s.d)
        for w, l in o.d.items(): d[w] = d.get(w, [])+l
        return El(d).norm()
    def scale(s, t): return El.diag(t)*s
    def __neg__(s): return s.scale(T.const(-1))
    def __mul__(s, o):
        d = {}
        for (u, l), (v, m) in itertools.product(s.d.items(), o.d.items()):
            for x, y in itertools.product(l, m):
                w, z = join(u, x, v, y)
                d.setdefault(w, []).append(z)
        return El(d).norm()
    def tr(s):
        f = lambda g: g[:-1] if g.endswith('~') else g+'~'
        return El({tuple((f(g), e) for g, e in reversed(w)): [tuple(reversed(x)) for x in l] for w, l in s.d.items()}).norm()
    def norm(s):
        d = {}
        for w, l in s.d.items():
            # numbers to the front; like terms together
            c = {}
            for x in l:
                f = T.ONE; y = []
                for t in x:
                    if not indexed(t): f = T.mul(f, t); y.append(T.ONE)
                    else: y.append(t)
                k = tuple(print_(t) for t in y)
                c[k] = (T.add(c[k][0], f), y) if k in c else (f, y)
            r = []
            for f, y in c.values():
                if zero_(f): continue
                r.append((T.mul(f, y[0]),)+tuple(y[1:]))
            if len(w) == 0 and len(r) > 1: r = [(fold(T.add, [x[0] for x in r]),)]
            r = merge([x for x in r if not any(zero_(t) for t in x)])
            if r: d[w] = r
        return El(d)
    def coeffs(s):
        """word -> Term, one independent port per position"""
        return {w: fold(T.add, [fold(T.mul, [rename(t, j) for j, t in enumerate(x)]) for x in l]) for w, l in s.d.items()}
def merge(r):
    """sum of products that differ in one place only"""
    k = 0
    while len(r) > 1 and k < len(r[0]):
        g = {}
        for x in r: g.setdefault(tuple(print_(t) for i, t in enumerate(x) if i != k), []).append(x)
        if len(g) < len(r):
            r = [y for y in (x[0][:k]+(fold(T.add, [y[k] for y in x]),)+x[0][k+1:] for x in g.values()) if not zero_(y[k])]
            k = 0
        else: k += 1
    return r
def join(u, x, v, y):
    """(word, diagonals) of a product"""
    m = clean(T.mul(x[-1], y[0]))
    while u and v and u[-1][0] == v[0][0] and u[-1][1] == -v[0][1] and not indexed(m):
        # G m G^-1 = m
        u, v = u[:-1], v[1:]
        m = clean(T.mul(m, T.mul(x[-2], y[1]))); x, y = x[:-1], y[1:]
    return u+v, x[:-1]+(m,)+y[1:]

class Dim:
    """a positive whole number left open"""
    def __init__(s, name): s.name = name
    def __eq__(s, o): 
        if s is o: return True
        if isinstance(o, Dim): return W.ask(f'{s.name}=={o.name}')
        if isinstance(o, int): return W.ask(f'{s.name}=={o}') if o >= 1 else False
        return NotImplemented
    def __ne__(s, o):
        r = s.__eq__(o); return r if r is NotImplemented else not r
    def __lt__(s, o): return W.ask(f'{s.name}<{o}') if o > 1 else False
    def __gt__(s, o): return W.ask(f'{s.name}>{o}') if o >= 1 else True
    def __le__(s, o): return not s > o
    def __ge__(s, o): return not s < o
    def __bool__(s): return True
    __hash__ = object.__hash__
    def __repr__(s): return s.name
    def __rmul__(s, l):
        if isinstance(l, list): return Rep(s, l)
        raise Unsupported('arithmetic with a size')
    __mul__ = __rmul__
    def __index__(s): raise Unsupported('size used as a number')
    __int__ = __index__
class Rep(list):
    """[...]*N"""
    def __init__(s, n, l): s.n = n; super().__init__(l)
    def __mul__(s, o): raise Unsupported('list repeated twice')

class World:
    def __init__(s): s.subst = {}; s.dec = []; s.pos = 0; s.facts = []; s.nF = Dim('nF'); s.N = Dim('N'); s.fresh = 0
    def ask(s, q):
        for f, v in s.facts:
            if f == q: return v
        if s.pos == len(s.dec): s.dec.append(True)
        v = s.dec[s.pos]; s.pos += 1; s.facts.append((q, v))
        return v
    def start(s): s.pos = 0; s.facts = []
    def gen(s, name):
        return s.subst.get(name) or El({((name, 1),): [(T.ONE, T.ONE)]})
    def invert(s, E):
        E = E.norm()
        if any(g.endswith('~') for w in E.d for g, e in w) and not any(not g.endswith('~') for w in E.d for g, e in w): return s.invert(E.tr()).tr()
        if len(E.d) == 1:
            (w, l), = E.d.items()
            if len(l) == 1 and all(g not in s.inputs for g, e in w):
                return El({tuple((g, -e) for g, e in reversed(w)): [tuple(T.inv(t) for t in reversed(l[0]))]})
        # a generator of which E is a linear function
        for g in s.inputs:
            w = ((g, 1),)
            if w in E.d and len(E.d[w]) == 1 and not any(h[0] == g for v in E.d for h in v if v != w):
                a, b = E.d[w][0]
                rest = El({v: l for v, l in E.d.items() if v != w})
                s.fresh += 1; q = f'Q{s.fresh}'
                s.subst[g] = El.diag(T.inv(a))*(El({((q, 1),): [(T.ONE, T.ONE)]})+(-rest))*El.diag(T.inv(b))
                s.inputs = [h for h in s.inputs if h != g]
                raise Again()
        raise Unsupported('inverse of '+str({w: len(l) for w, l in E.d.items()}))
W = World()

class Arr:
    """array with open sizes.  kind: 'm' matrix (or stack), 'v' one value per port (or per
    frequency and port), 'f' one value per frequency, '0' scalar; x: El, or Term"""
    __array_priority__ = 100
    __array_ufunc__ = None
    def __init__(s, kind, x, shape): s.kind, s.x, s.shape = kind, x, tuple(shape)
    ndim = property(lambda s: len(s.shape))
    dtype = property(lambda s: _np.dtype(complex))
    def __len__(s): raise Unsupported('len of an open array')
    def copy(s): return s
    def astype(s, *a, **k): return s
    @property
    def T(s):
        if s.kind == 'v' and s.ndim == 1: return s
        if s.kind == 'm' and s.ndim == 2: return Arr('m', s.x.tr(), s.shape)
        raise Unsupported('transpose')
    def transpose(s, *a):
        if not a: return s.T
        raise Unsupported('transpose')
    def conj(s): return elem(T.fconj, s)
    conjugate = conj
    real = property(lambda s: elem(T.fre, s))
    imag = property(lambda s: elem(T.fim, s))
    def tolist(s):
        if s.kind == 'v' and s.ndim == 1: return PortList([s])
        raise Unsupported('tolist')
    def reshape(s, *sh):
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        if [d for d in sh if not (isinstance(d, int) and d == 1)] != [d for d in s.shape if not (isinstance(d, int) and d == 1)]: raise Unsupported('reshape')
        if s.kind == 'f' and len(sh) == 3: return Arr('m', El.diag(s.x) if isinstance(s.x, Term) else s.x, sh)
        return Arr(s.kind, s.x, sh)
    def __iter__(s):
        if s.ndim == 0: raise TypeError('iteration over a 0-d array')
        if s.kind == 'v' and s.ndim == 1 or s.kind == 'm' and s.ndim == 2: raise Unsupported('iteration over ports')
        W.cur = s.shape[0]
        yield Arr(s.kind if s.kind != 'f' else '0', s.x, s.shape[1:])
    def __getitem__(s, k):
        if not isinstance(k, tuple): k = (k,)
        full = lambda q: isinstance(q, slice) and q == slice(None)
        if Ellipsis in [q for q in k if not isinstance(q, (Arr,))]: raise Unsupported('index')
        if any(q is None for q in k):
            if s.kind == 'v' and s.ndim == 1 and len(k) == 2: return Col(s.x) if k[1] is None else s
            raise Unsupported('new axis')
        sh = list(s.shape); out = []
        for q, d in itertools.zip_longest(k, sh, fillvalue=slice(None)):
            if full(q): out.append(d)
            elif isinstance(q, int) and q in (0, -1) and isinstance(d, int) and d == 1: pass
            else: raise Unsupported(f'index {q} of an open array')
        if s.kind == 'm' and len(s.shape) == 3 and len(out) == 1: return Arr('f', s.x, out)
        if s.kind == 'm' and len(out) == 0: return Arr('0', s.x, ())
        return Arr(s.kind, s.x, out)
    # arithmetic
    def _bin(s, o, f):
        """elementwise"""
        o = arr(o)
        if isinstance(s, Col) or isinstance(o, Col): return NotImplemented
        if s.kind == o.kind == 'm':
            if f not in ('+',): raise Unsupported('elementwise product of matrices')
            return Arr('m', s.x+o.x, s.shape if s.ndim >= o.ndim else o.shape)
        if s.kind == '0' and o.kind == 'm': return o._bin(s, f)
        if s.kind == 'm':
            if f == '*' and o.kind == '0': return Arr('m', s.x.scale(o.x), s.shape)
            if f == '*' and o.kind == 'v' and o.ndim == 1 and s.ndim == 2: return Arr('m', s.x*El.diag(o.x), s.shape)     # columns
            raise Unsupported('broadcast')
        if isinstance(s.x, El) or isinstance(o.x, El): raise Unsupported('values of matrices')
        a, b = lift(s.x), lift(o.x)
        r = T.add(a, b) if f == '+' else T.mul(a, b)
        big = s if s.ndim >= o.ndim else o
        if s.kind != '0' and o.kind != '0' and s.kind != o.kind: raise Unsupported('broadcast')
        return Arr(big.kind, r, big.shape)
    def __add__(s, o): return s._bin(o, '+')
    __radd__ = __add__
    def __neg__(s): return Arr(s.kind, -s.x if isinstance(s.x, El) else T.neg(lift(s.x)), s.shape)
    def __sub__(s, o): return s._bin(-arr(o), '+')
    def __rsub__(s, o): return (-s)._bin(o, '+')
    def __mul__(s, o):
        o = arr(o)
        if isinstance(o, Col): return Arr('m', El.diag(o.x)*s.x, s.shape)
        return s._bin(o, '*')
    def __rmul__(s, o): return arr(o)*s if isinstance(o, Arr) else s._bin(o, '*')
    def __truediv__(s, o): return s*elem(T.inv, arr(o))
    def __rtruediv__(s, o): return elem(T.inv, s)*o
    def __pow__(s, n): return elem(lambda t: T.power(t, lift(n)), s)
    def __matmul__(s, o):
        if not (isinstance(o, Arr) and s.kind == o.kind == 'm'): raise Unsupported('matmul')
        return Arr('m', s.x*o.x, s.shape if s.ndim >= o.ndim else o.shape)
    def dot(s, o): return s @ o
    def __eq__(s, o): raise Unsupported('comparison')
    __lt__ = __le__ = __gt__ = __ge__ = __ne__ = __eq__
    def __bool__(s): raise Unsupported('truth value')
    __hash__ = object.__hash__
class Col(Arr):
    """d[:,None]"""
    def __init__(s, x): super().__init__('v', x, (W.N, 1))
    def __mul__(s, o):
        o = arr(o)
        if o.kind == 'm': return Arr('m', El.diag(s.x)*o.x, o.shape)
        raise Unsupported('broadcast')
    __rmul__ = __mul__
class PortList(list):
    """list of the values of the ports; repeated for each frequency"""
    def __init__(s, l, n=None): super().__init__(l); s.n = n
    def __mul__(s, o):
        if (isinstance(o, Dim) or o == 1) and s.n is None: return PortList(s, o)
        raise Unsupported('list')
    __rmul__ = __mul__
def arr(x):
    if isinstance(x, Arr): return x
    t = lift(x)
    if t is None: raise Unsupported(f'array of {type(x)}')
    return Arr('0', t, ())
def elem(f, a):
    if isinstance(a.x, El):
        if a.kind == '0' or a.kind == 'f': raise Unsupported('function of a matrix entry')
        if f is T.fconj: raise Unsupported('conjugate of a matrix')
        raise Unsupported('elementwise function of a matrix')
    return Arr(a.kind, f(lift(a.x)), a.shape)

class Lin(types.ModuleType):
    class LinAlgError(Exception): pass
    @staticmethod
    def inv(a):
        if not (isinstance(a, Arr) and a.kind == 'm'): raise Unsupported('inv')
        return Arr('m', W.invert(a.x), a.shape)
    @staticmethod
    def solve(a, b): return Lin.inv(a) @ b
class NPM(types.ModuleType):
    linalg = Lin('linalg')
    newaxis = None
    pi = _np.pi; inf = _np.inf
    ndarray = Arr
    complex128 = complex; float64 = float
    @staticmethod
    def array(x, dtype=None, copy=True, ndmin=0):
        if isinstance(x, Rep):
            e = NPM.array(x[0]) if len(x) == 1 else None
            if e is None: raise Unsupported('list')
            if e.kind == '0': return Arr('v' if x.n is W.N else 'f', e.x, (x.n,))
            if e.kind == 'v' and e.ndim == 1: return Arr('v', e.x, (x.n,)+e.shape)
            raise Unsupported('list')
        if isinstance(x, PortList): 
            a = x[0]
            return a if x.n is None else Flat(a, x.n)
        if isinstance(x, Arr): return x
        if isinstance(x, (list, tuple)):
            y = [NPM.array(e) for e in x]
            if len(y) != 1: raise Unsupported('list')
            e = y[0]
            if e.kind == 'm' and e.ndim == 2: return Arr('m', e.x, (W.cur,)+e.shape)
            if e.kind == 'v' and e.ndim == 1: return Arr('v', e.x, (W.cur,)+e.shape)
            if e.kind == '0': return Arr('f', e.x, (W.cur,))
            raise Unsupported('list')
        return arr(x)
    asarray = array
    stack = staticmethod(lambda x, axis=0: NPM.array(list(x)) if axis == 0 else NPM._no())
    @staticmethod
    def _no(*a, **k): raise Unsupported('numpy function')
    @staticmethod
    def shape(x): return NPM.array(x).shape
    @staticmethod
    def ndim(x): return NPM.array(x).ndim
    @staticmethod
    def ones(sh, dtype=None):
        sh = sh if isinstance(sh, (tuple, list)) else (sh,)
        return Arr('v' if sh[-1] is W.N else 'f', T.ONE, sh)
    @staticmethod
    def full(sh, v, dtype=None): return NPM.ones(sh)*v
    @staticmethod
    def ones_like(a, dtype=None): return Arr(a.kind, T.ONE, a.shape) if a.kind != 'm' else NPM._no()
    @staticmethod
    def eye(n, dtype=None):
        if not (n is W.N or isinstance(n, int) and n == 1): raise Unsupported('eye')
        return Arr('m', El.diag(T.ONE), (n, n))
    identity = eye
    @staticmethod
    def diag(v):
        if isinstance(v, Arr) and v.kind == 'v' and v.ndim == 1: return Arr('m', El.diag(v.x), (W.N, W.N))
        raise Unsupported('diag')
    sqrt = staticmethod(lambda a: elem(T.fsqrt, arr(a)))
    real = staticmethod(lambda a: elem(T.fre, arr(a)))
    imag = staticmethod(lambda a: elem(T.fim, arr(a)))
    conj = staticmethod(lambda a: elem(T.fconj, arr(a)))
    conjugate = conj
    matmul = dot = staticmethod(lambda a, b: a @ b)
    def __getattr__(s, n):
        if n.startswith('__'): raise AttributeError(n)
        raise Unsupported('numpy.'+n)
class Flat(Arr):
    """values per frequency and port in one row: only to be reshaped"""
    def __init__(s, a, n): super().__init__('v', a.x, (W.N, n)); s.a, s.n = a, n
    def reshape(s, *sh):
        if len(sh) == 1 and isinstance(sh[0], tuple): sh = sh[0]
        if len(sh) == 2 and (sh[0] is s.n or sh[0] == s.n == 1) and sh[1] is W.N: return Arr('v', s.a.x, sh)
        raise Unsupported('reshape')

class Once(ast.NodeVisitor):
    """a loop executed for one arbitrary frequency must not hand a value to the next one: every
    name its body reads was bound before the loop and is not rebound in it, or is bound in it first
    (append to a list bound outside is the one exception: order and number are those of the loop)"""
    def __init__(s, tree): s.bad = []; s.visit(tree)
    def visit_While(s, n): s.bad.append('while loop')
    def visit_For(s, n):
        tgt = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        bound = set(tgt)
        stored = {x.id for b in n.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        lists = set()
        for b in n.body:
            if isinstance(b, (ast.AugAssign,)) : s.bad.append('value carried by a loop')
            if isinstance(b, ast.Expr) and isinstance(b.value, ast.Call) and isinstance(b.value.func, ast.Attribute) and b.value.func.attr == 'append' and isinstance(b.value.func.value, ast.Name):
                lists.add(b.value.func.value.id)
            if isinstance(b, ast.Assign) and any(not isinstance(t, (ast.Name, ast.Tuple)) for t in b.targets): s.bad.append('assignment to a part in a loop')
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in stored and x.id not in bound: s.bad.append(f'{x.id} carried by a loop')
                if isinstance(x, (ast.Break, ast.Continue, ast.Return, ast.While, ast.For)): s.bad.append('control flow in a loop')
            if isinstance(b, ast.Assign): bound |= {x.id for t in b.targets for x in ast.walk(t) if isinstance(x, ast.Name)}
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id in lists and isinstance(x.ctx, ast.Load):
                    pass
        s.generic_visit(n)

def really(E, seed):
    """E does not vanish for random matrices of some size"""
    import random
    for N in (2, 3, 4):
        rng = random.Random(f'{seed}/{N}'); g = {}
        def mat(name):
            if name.endswith('~'): return tuple([list(r) for r in zip(*A)] for A in mat(name[:-1]))
            if name not in g:
                while True:
                    A = [[(rng.randrange(gf.P), rng.randrange(gf.P)) for _ in range(N)] for _ in range(N)]
                    try: g[name] = (A, minv(A)); break
                    except gf.Bad: pass
            return g[name]
        for tr in range(60):
            F = gf.GF(f'{seed}/m{N}/{tr}')
            try:
                tot = [[(0, 0)]*N for _ in range(N)]
                for w, l in E.d.items():
                    for x in l:
                        dg = [[F.ev(rename(t, f'p{i}')) for i in range(N)] for t in x]
                        A = [[dg[0][i] if i == j else (0, 0) for j in range(N)] for i in range(N)]
                        for (name, e), d in zip(w, dg[1:]):
                            B = mat(name)[0 if e == 1 else 1]
                            A = [[gf.cmul(v, d[j]) for j, v in enumerate(r)] for r in mmul(A, B)]
                        tot = [[gf.cadd(a, b) for a, b in zip(r, q)] for r, q in zip(tot, A)]
            except gf.Bad: continue
            if any(v != (0, 0) for r in tot for v in r): return True
            break
    return False
def mmul(A, B):
    n = len(A); R = []
    for i in range(n):
        r = []
        for j in range(n):
            v = (0, 0)
            for k in range(n): v = gf.cadd(v, gf.cmul(A[i][k], B[k][j]))
            r.append(v)
        R.append(r)
    return R
def minv(A):
    n = len(A); M = [list(r)+[(1, 0) if i == j else (0, 0) for j in range(n)] for i, r in enumerate(A)]
    for i in range(n):
        k = next((k for k in range(i, n) if M[k][i] != (0, 0)), None)
        if k is None: raise gf.Bad('singular')
        M[i], M[k] = M[k], M[i]
        f = gf.cinv(M[i][i]); M[i] = [gf.cmul(f, v) for v in M[i]]
        for j in range(n):
            if j != i and M[j][i] != (0, 0):
                f = gf.cneg(M[j][i]); M[j] = [gf.cadd(v, gf.cmul(f, u)) for v, u in zip(M[j], M[i])]
    return [r[n:] for r in M]

NP = NPM('numpy')
class Mods:
    """the current source of the functions, with numpy replaced"""
    def __init__(s, root): s.root, s.m, s.src, s.bad = root, {}, {}, {}
    def get(s, name):
        if name in s.m: return s.m[name]
        p = os.path.join(s.root, 'src', 'pyRFtk', name+'.py')
        src = open(p).read(); tree = ast.parse(src)
        s.bad[name] = Once(tree).bad
        mod = types.ModuleType('pyRFtk.'+name); s.m[name] = mod
        g = mod.__dict__
        import builtins
        def imp(n, gl=None, lo=None, fl=(), level=0):
            if level == 0:
                if n.split('.')[0] == 'numpy': return NP
                if n.split('.')[0] in ('scipy', 'matplotlib'): raise Unsupported(n)
                return __import__(n, gl, lo, fl, level)
            if n == 'config':
                c = types.ModuleType('config')
                class L(dict):
                    def __missing__(s, k): return False
                c.logit = L(); c.tLogger = c.ident = c.logident = lambda *a, **k: None
                return c
            if n: return s.get(n)
            b = types.ModuleType('pkg')
            for f in fl: setattr(b, f, s.get(f))
            return b
        b = dict(vars(builtins)); b['__import__'] = imp
        b['range'] = lambda *a: range(*a) if not any(isinstance(x, Dim) for x in a) else _norange()
        b['len'] = lambda x: x.shape[0] if isinstance(x, Arr) and x.ndim else len(x)
        g['__builtins__'] = b; g['__name__'] = 'pyRFtk.'+name
        exec(compile(tree, p, 'exec'), g)
        return mod
    def fn(s, name): return getattr(s.get(name), name)
def _norange(): raise Unsupported('range over an open size')

def prove(label, goal, inputs, root, seed, idx=(), limit=40):
    """goal(fn) -> [(label, El)] that must vanish, for every way of answering questions about sizes.
    Returns [(label, status, detail)], the facts of a failing path in detail."""
    global W
    out = []; dec = []
    INDEXED.clear(); INDEXED.update(idx); _ren.clear(); _cn.clear()
    for n in range(limit):
        W.__init__(); W.dec = dec; W.inputs = list(inputs); W.cur = 1
        M = Mods(root)
        try:
            for _ in range(6):
                W.start(); W.cur = 1; W.inputs = [g for g in inputs if g not in W.subst]
                try: obl = goal(M); break
                except Again: continue
            else: raise Unsupported('too many inverses')
            bad = [f'{k}: {v[0]}' for k, v in M.bad.items() if v]
            if bad: raise Unsupported(bad[0])
            for l, E in obl:
                st = 'nc'
                if E is False: st = 'refuted'
                elif E is not True:
                    for w, t in E.norm().coeffs().items():
                        if t is T.ZERO: continue
                        good = 0; tries = 0
                        while good < 3 and tries < 200:
                            tries += 1
                            try: v = gf.GF(f'{seed}/{tries}').ev(t)
                            except gf.Bad: continue
                            if v != (0, 0): st = 'refuted'; break
                            good += 1
                        if st == 'refuted': break
                        if good < 3: st = 'undecided'
                    if st == 'refuted' and not really(E, seed): st = 'undecided'
                out.append((f'{label}: {l}', st, dict(W.facts)))
        except Unsupported as e:
            out.append((label, 'unsupported', str(e)))
        except Exception as e:
            out.append((label, 'unsupported', f'{type(e).__name__}: {e}'))
        dec = W.dec[:W.pos]
        while dec and dec[-1] is False: dec.pop()
        if not dec: break
        dec[-1] = False
    return out

# ---------------------------------------------------------------------------- obligations
ONE = None
def _d(t): return El.diag(lift(t))
def shapes(kind):
    n, f = W.N, W.nF
    return {'stack': (f, n, n), 'matrix': (n, n), 'list': (f,)}[kind]
def given(kind):
    """an arbitrary matrix (one for each frequency): (argument, element)"""
    g = W.gen('X')
    return Arr('f' if kind == 'list' else 'm', g, shapes(kind)), g
def result(Y, X):
    return isinstance(Y, Arr) and Y.kind == X.kind and Y.shape == X.shape

def c01(root, seed):
    z0 = T.sym('z0', 'C'); out = []
    law = {'S_from_Z': lambda y, g, o, z: (y*(g+z))+-(g+-z), 'S_from_Y': lambda y, g, o, z: y*(o+z*g)+-(o+-(z*g)),
           'Z_from_S': lambda y, g, o, z: y*(o+-g)+-(z*(o+g)), 'Y_from_S': lambda y, g, o, z: z*y*(o+g)+-(o+-g)}
    back = {'S_from_Z': 'Z_from_S', 'S_from_Y': 'Y_from_S', 'Z_from_S': 'S_from_Z', 'Y_from_S': 'S_from_Y'}
    for f in law:
        for kind in ('stack', 'matrix', 'list'):
            def goal(M):
                X, g = given(kind)
                Y = M.fn(f)(X, z0)
                if not result(Y, X): return [('shape kept', False)]
                B = M.fn(back[f])(Y, z0)
                return [('shape kept', True), ('b = S a', law[f](Y.x, g, _d(T.ONE), _d(z0))),
                        ('inverse', result(B, X) and B.x+-g)]
            out += prove(f'{f} of a {kind} of any size', goal, ['X'], root, seed)
    def bad(M):
        for sh in ((W.nF, W.N), (W.nF, W.N, Dim('M')), (W.nF, W.N, W.N, W.N), (W.N, W.N, W.nF, W.nF)):
            try: M.fn('_check_3D_shape_')(Arr('m', W.gen('X'), sh))
            except ValueError: continue
            if len(sh) < 4 and any(v and '==' in q for q, v in W.facts): continue       # square after all
            return [(f'{len(sh)} dimensions rejected', False)]
        return [('other shapes rejected', True)]
    out += prove('_check_3D_shape_', bad, ['X'], root, seed)
    return out

def c02(root, seed):
    out = []
    s = T.fsqrt
    def VI(z, t):       # V, I of the waves a, b:  V = Va a + Vb b ...
        i = T.inv(z); r = T.inv(s(T.fre(z)))
        return {'V': lambda: (T.ONE, T.ONE, i, T.neg(i)), 'P': lambda: (s(z), s(z), T.inv(s(z)), T.neg(T.inv(s(z)))),
                'G': lambda: (T.mul(T.fconj(z), r), T.mul(z, r), r, T.neg(r))}[t]()
    def AB(z, t):
        h = T.inv(T.const(2)); m = T.mul
        r = {'V': T.ONE, 'P': T.inv(s(z)), 'G': T.inv(s(T.fre(z)))}[t]
        zc = T.fconj(z) if t == 'G' else z
        return m(h, r), m(m(h, r), z), m(h, r), T.neg(m(m(h, r), zc))      # aV aI bV bI
    def imp(name, form, typ):
        r = T.sym(name, 'R', '+')
        z = r if typ == 'P' else T.add(r, T.mul(T.const(0, 1), T.sym(name+'x', 'R')))
        if form == 's': return z, z
        if form == 'p': return Arr('v', z, (W.N,)), z
        if form == 'l': return PortList([Arr('v', z, (W.N,))]), z
        return Arr('v', z, (W.nF, W.N)), z
    for t1, t2 in itertools.product('VPG', 'VPG'):
        for kind, f1, f2 in (('stack', 'p', 'p'), ('stack', 's', 'k'), ('stack', 'k', 's'), ('stack', 'k', 'k'), ('matrix', 'p', 's'), ('matrix', 's', 'p'), ('matrix', 'p', 'p'), ('stack', 's', 's')):
            def goal(M, laws=True):
                X, g = given(kind)
                A1, z1 = imp('z', f1, t1); A2, z2 = imp('y', f2, t2)
                Y = M.fn('ConvertGeneral')(A2, X, A1, t1, t2)
                if not result(Y, X): return [('shape kept', False)]
                Va, Vb, Ia, Ib = VI(z1, t1); aV, aI, bV, bI = AB(z2, t2)
                V = _d(Va)+_d(Vb)*g; I = _d(Ia)+_d(Ib)*g
                return [('shape kept', True), ('b2 = S2 a2', Y.x*(_d(aV)*V+_d(aI)*I)+-(_d(bV)*V+_d(bI)*I))]
            out += prove(f'{t1} to {t2}, {kind} of any size, impedances {f1} {f2}', goal, ['X'], root, seed, idx=('z', 'zx', 'y', 'yx'))
        def same(M):
            X, g = given('stack'); A1, z1 = imp('z', 'p', t1)
            Y = M.fn('ConvertGeneral')(A1, X, A1, t1, t1)
            return [('identity', result(Y, X) and Y.x+-g)]
        if t1 == t2: out += prove(f'{t1} to itself', same, ['X'], root, seed, idx=('z', 'zx'))
    return out

def extra(f, root, seed):
    r = f(root, seed)
    und = [(l, 'any size', st, str(d)[:200]) for l, st, d in r if st not in ('nc', 'refuted')]
    ref = [[l, 'any size', 'refuted', str(d)] for l, st, d in r if st == 'refuted']
    return {'what': 'the same contracts for every number of ports and of frequencies (vc/ncalg.py): identities of the free algebra of matrices of open size',
            'obligations': len(r), 'discharged': sum(st == 'nc' for l, st, d in r), 'undischarged': und+[tuple(x) for x in ref], 'violations': ref}
