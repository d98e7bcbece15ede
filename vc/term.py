"""Hash-consed symbolic scalars.

A Term denotes a real ('R') or complex ('C') mathematical number.  Machine
arithmetic is treated as mathematical: a float constant stands for the short
rational it was written as.
"""
from fractions import Fraction as Fr
import math, numbers
import numpy as _np

class Unsupported(BaseException):
    """the engine cannot represent this operation (never a verdict)"""

_table = {}
_count = [0]

def rat(x):
    """the rational a float stands for"""
    if isinstance(x, Fr): return x
    if isinstance(x, (bool, int, _np.integer, _np.bool_)): return Fr(int(x))
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise Unsupported('non finite constant')
    if x == 0: return Fr(0)
    q = Fr(repr(x))
    if len(str(q.numerator).strip('-').rstrip('0')) <= 12: return q
    e = Fr(x)
    for lim in (1000, 10**6):
        g = e.limit_denominator(lim)
        if g and abs(g-e) <= abs(e)*Fr(1, 4*10**15): return g
        h = (1/e).limit_denominator(lim)
        if h and abs(1/h-e) <= abs(e)*Fr(1, 4*10**15): return 1/h
    # round decimal noise (e.g. 4.9999999999999996e-05)
    q15 = Fr('%.15g' % x)
    if len(str(q15.numerator).strip('-').rstrip('0')) <= 10: return q15
    return q

def _memo(f):
    d = {}
    def g(a):
        r = d.get(a.id)
        if r is None: r = d[a.id] = f(a)
        return r
    return g

class SBool:
    """symbolic truth value; op in eq, lt, le, not, and, or"""
    __slots__ = ('op', 'args')
    def __init__(s, op, *args):
        s.op, s.args = op, args
    def key(s):
        return (s.op,)+tuple(a.key() if isinstance(a, SBool) else (a.id if isinstance(a, Term) else a) for a in s.args)
    def __bool__(s):
        return decide(s)
    def __and__(s, o):
        if o is True or (isinstance(o, _np.bool_) and o): return s
        if o is False or isinstance(o, _np.bool_): return False
        if isinstance(o, _np.ndarray): return NotImplemented
        return SBool('and', s, o)
    __rand__ = __and__
    def __or__(s, o):
        if o is False or (isinstance(o, _np.bool_) and not o): return s
        if o is True or isinstance(o, _np.bool_): return True
        if isinstance(o, _np.ndarray): return NotImplemented
        return SBool('or', s, o)
    __ror__ = __or__
    def __invert__(s): return SBool('not', s)
    def logical_not(s): return SBool('not', s)
    def __hash__(s): return 11
    def __eq__(s, o): return bool(s) == bool(o)
    def __repr__(s): return f'({s.op} '+' '.join(map(str, s.args))+')'
    # arithmetic on truth values (sum of masks)
    def __add__(s, o): return int(bool(s))+o
    __radd__ = __add__
    def __mul__(s, o): return int(bool(s))*o
    __rmul__ = __mul__
    def __int__(s): return int(bool(s))
    def __index__(s): return int(bool(s))

_decider = [None]
def decide(b):
    if _decider[0] is None:
        raise Unsupported('truth value of a symbolic condition outside exploration')
    return _decider[0](b)

PRINTING = [False]      # inside functions that only make text
TOKEN = 7*10**12        # 'token': a number is printed as an integer that stands for it
class Term:
    __slots__ = ('op', 'args', 'sort', 'id', 'sgn', '__weakref__')
    # sgn: '+' strictly positive, '0+' nonnegative, '' unknown (real only)

    def __init__(self): raise TypeError
    # --- python number protocol
    def __hash__(s): return 7
    def __copy__(s): return s
    def __deepcopy__(s, memo): return s
    def __reduce__(s): return (_byid, (s.id,))
    def __add__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(s, o)
    def __radd__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, s)
    def __sub__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(s, neg(o))
    def __rsub__(s, o):
        o = lift(o)
        return NotImplemented if o is None else add(o, neg(s))
    def __mul__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(s, o)
    def __rmul__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, s)
    def __truediv__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(s, inv(o))
    def __rtruediv__(s, o):
        o = lift(o)
        return NotImplemented if o is None else mul(o, inv(s))
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __pow__(s, o):
        o = lift(o)
        return NotImplemented if o is None else power(s, o)
    def __rpow__(s, o):
        o = lift(o)
        return NotImplemented if o is None else power(o, s)
    def __abs__(s): return fabs(s)
    def __mod__(s, o): raise Unsupported('mod')
    __rmod__ = __floordiv__ = __rfloordiv__ = __mod__
    def __eq__(s, o):
        if o is None or isinstance(o, (str, list, tuple, dict)): return False
        o = lift(o)
        if o is None: return NotImplemented
        return eq(s, o)
    def __ne__(s, o):
        r = s.__eq__(o)
        if r is NotImplemented: return r
        return (not r) if isinstance(r, bool) else SBool('not', r)
    def __lt__(s, o): return cmp('lt', s, o)
    def __le__(s, o): return cmp('le', s, o)
    def __gt__(s, o): return cmp('lt', o, s)
    def __ge__(s, o): return cmp('le', o, s)
    def __bool__(s):
        r = eq(s, ZERO)
        return (not r) if isinstance(r, bool) else not decide(r)
    def __float__(s):
        if s.op == 'const' and PRINTING[0] != 'token' and s.args[1] == 0: return float(s.args[0])
        if PRINTING[0] == 'token' and s.sort == 'R': return float(TOKEN+s.id)
        if PRINTING[0]: return .5
        raise Unsupported('float() of a symbolic value')
    def __complex__(s):
        if s.op == 'const': return complex(float(s.args[0]), float(s.args[1]))
        raise Unsupported('complex() of a symbolic value')
    def __int__(s):
        if s.op == 'const' and s.args[1] == 0: return int(s.args[0])
        raise Unsupported('int() of a symbolic value')
    def __index__(s):
        if s.op == 'const' and s.args[1] == 0 and s.args[0].denominator == 1: return int(s.args[0])
        raise TypeError('symbolic value is not an index')
    def __round__(s, n=None):
        if PRINTING[0] == 'token': return s
        if s.op == 'const': return lift(round(float(s), n) if n is not None else round(float(s)))
        k = lift(10.)**(n or 0)
        return fn('floor', s*k+lift(.5))/k
    def __ceil__(s): return fn('ceil', s)
    def __floor__(s): return fn('floor', s)
    @property
    def real(s): return fre(s)
    @property
    def imag(s): return fim(s)
    def conjugate(s): return fconj(s)
    conj = conjugate
    def is_integer(s): raise Unsupported('is_integer')
    def __format__(s, spec):
        if PRINTING[0] == 'token' and s.sort == 'R': return format(float(s), spec if spec else '.0f')
        if s.op == 'const' and s.args[1] == 0 : return format(float(s), spec)
        if s.op == 'const' : return format(complex(s), spec)
        return _format[0](s, spec)
    def __str__(s):
        if PRINTING[0] == 'token' and s.sort == 'R': return format(float(s), '.0f')
        if s.op == 'const': return str(float(s) if s.args[1] == 0 else complex(s))
        return _format[0](s, '')
    def __repr__(s): return show(s)
    # numpy scalar look
    ndim = 0
    size = 1
    shape = ()
    def copy(s): return s
    def item(s): return s
    def tolist(s): return s
    def astype(s, t): return s
    def flatten(s):
        r = _np.empty(1, dtype=object); r[0] = s
        return r
    @property
    def T(s): return s
    # ufunc methods looked up by numpy on object arrays
    def sqrt(s): return fsqrt(s)
    def exp(s): return fexp(s)
    def log(s): return flog(s)
    def log10(s): return mul(flog(s), inv(flog(const(10))))
    def sin(s): return fn('sin', s)
    def cos(s): return fn('cos', s)
    def tan(s): return mul(fn('sin', s), inv(fn('cos', s)))
    def sinh(s): return fsinh(s)
    def cosh(s): return fcosh(s)
    def tanh(s): return mul(fsinh(s), inv(fcosh(s)))
    def arctan(s): return fn('arctan', s)
    def rint(s): raise Unsupported('rint')

_format = [lambda t, spec: f'<sym{t.id}>']
_ids = {}
def _byid(i): return _ids[i]

def mk(op, args, sort, sgn=''):
    key = (op, tuple(a.id if isinstance(a, Term) else a for a in args), sort)
    t = _table.get(key)
    if t is None:
        t = object.__new__(Term)
        t.op, t.args, t.sort, t.sgn = op, args, sort, sgn
        _count[0] += 1
        t.id = _count[0]
        _table[key] = t
        _ids[t.id] = t
    return t

def const(re, im=0):
    re, im = rat(re), rat(im)
    return mk('const', (re, im), 'C' if im else 'R',
              '+' if (not im and re > 0) else '0+' if (not im and re == 0) else '')
ZERO, ONE, MONE, I_ = const(0), const(1), const(-1), const(0, 1)
HALF = const(Fr(1, 2))

def sym(name, sort='R', sgn=''):
    return mk('sym', (name, sgn), sort, sgn)

class NonFinite(Exception):
    pass

def lift(o):
    if isinstance(o, Term): return o
    if isinstance(o, SBool): return const(int(bool(o)))
    if isinstance(o, (bool, int, _np.integer, _np.bool_, Fr)): return const(int(o) if not isinstance(o, Fr) else o)
    if isinstance(o, (float, _np.floating)):
        if math.isinf(o) or math.isnan(o): return mk('nonfin', (repr(float(o)),), 'R')
        return const(rat(o))
    if isinstance(o, (complex, _np.complexfloating)):
        if not (math.isfinite(o.real) and math.isfinite(o.imag)): return mk('nonfin', (repr(complex(o)),), 'C')
        return const(rat(o.real), rat(o.imag))
    if isinstance(o, _np.ndarray) and o.ndim == 0: return lift(o[()])
    return None

def isconst(t): return t.op == 'const'
def isc(t, v): return t.op == 'const' and t.args[1] == 0 and t.args[0] == v

def _sort(a, b): return 'C' if 'C' in (a.sort, b.sort) else 'R'

def add(a, b):
    if a.op == 'nonfin' or b.op == 'nonfin': return _nf('add', a, b)
    if isconst(a) and isconst(b): return const(a.args[0]+b.args[0], a.args[1]+b.args[1])
    if isc(a, 0): return b
    if isc(b, 0): return a
    if a is neg(b): return ZERO
    if a is b: return mul(const(2), a)
    if a.id > b.id: a, b = b, a
    s = _sort(a, b)
    g = ''
    if s == 'R' and a.sgn and b.sgn: g = '+' if '+' in (a.sgn, b.sgn) else '0+'
    return mk('add', (a, b), s, g)

def neg(a):
    if isconst(a): return const(-a.args[0], -a.args[1])
    if a.op == 'mul' and isconst(a.args[0]): return mul(neg(a.args[0]), a.args[1])
    return mul(MONE, a)

def _nf(op, a, b):
    """arithmetic with inf: only what IEEE gives for every finite partner of known sign"""
    if 'nan' in a.args or 'nan' in b.args: return mk('nonfin', ('nan',), 'R')
    if op == 'add':
        n = a if a.op == 'nonfin' else b; o = b if n is a else a
        if o.op != 'nonfin' and n.args[0] in ('inf', '-inf') and o.sort == 'R': return n
        if o is n and n.args[0] in ('inf', '-inf'): return n
        if n.args[0] == '?' and o.op != 'nonfin': return n
    if op == 'mul':
        n = a if a.op == 'nonfin' else b; o = b if n is a else a
        if n.args[0] in ('inf', '-inf') and o.op != 'nonfin' and o.sort == 'R':
            if o.sgn == '+': return n
            if neg(o).sgn == '+': return mk('nonfin', ('-inf' if n.args[0] == 'inf' else 'inf',), 'R')
            if bool(o == 0): return mk('nonfin', ('nan',), 'R')
            return n if bool(o > 0) else mk('nonfin', ('-inf' if n.args[0] == 'inf' else 'inf',), 'R')
        if n.args[0] in ('inf', '-inf', '?') and o.op != 'nonfin':
            return mk('nonfin', ('?',), 'C')       # some non finite number: nothing may be concluded from it
        if '?' in (a.args[0], b.args[0]): return mk('nonfin', ('?',), 'C')
    if op == 'inv':
        if a.args[0] in ('inf', '-inf'): return ZERO
    raise Unsupported('arithmetic with a non finite constant')

def mul(a, b):
    if a.op == 'nonfin' or b.op == 'nonfin': return _nf('mul', a, b)
    if isconst(a) and isconst(b):
        (p, q), (r, s) = a.args, b.args
        return const(p*r-q*s, p*s+q*r)
    if isc(a, 0) or isc(b, 0): return ZERO
    if isc(a, 1): return b
    if isc(b, 1): return a
    if isconst(b): a, b = b, a
    if isconst(a):
        if b.op == 'mul' and isconst(b.args[0]): return mul(mul(a, b.args[0]), b.args[1])
    else:
        if a.op == 'mul' and isconst(a.args[0]): return mul(a.args[0], mul(a.args[1], b))
        if b.op == 'mul' and isconst(b.args[0]): return mul(b.args[0], mul(a, b.args[1]))
        if a.op == 'inv' and a.args[0] is b or b.op == 'inv' and b.args[0] is a: return ONE
        if a.op == 'sqrt' and a is b: return a.args[0]
        if a.id > b.id: a, b = b, a
    s = _sort(a, b)
    g = ''
    if s == 'R':
        if a is b: g = '+' if a.sgn == '+' else '0+'
        elif a.sgn and b.sgn: g = '+' if a.sgn == b.sgn == '+' else '0+'
    return mk('mul', (a, b), s, g)

def inv(a):
    if a.op == 'nonfin': return _nf('inv', a, a)
    if isconst(a):
        p, q = a.args
        n = p*p+q*q
        if n == 0: raise ZeroDivisionError('division by zero')
        return const(p/n, -q/n)
    if a.op == 'inv': return a.args[0]
    if a.op == 'mul' and isconst(a.args[0]): return mul(inv(a.args[0]), inv(a.args[1]))
    return mk('inv', (a,), a.sort, '+' if a.sgn else '')

def ipow(a, n):
    if n < 0: return inv(ipow(a, -n))
    r = ONE
    while n:
        if n & 1: r = mul(r, a)
        n >>= 1
        if n: a = mul(a, a)
    return r

def power(a, b):
    if isconst(b) and b.args[1] == 0:
        q = b.args[0]
        if q.denominator == 1: return ipow(a, int(q))
        if q.denominator == 2: return ipow(fsqrt(a), int(q.numerator))
    if isc(a, 0): 
        if b.sgn == '+': return ZERO
    if a.sort == 'R' and a.sgn == '+':
        return fexp(mul(b, flog(a)))
    raise Unsupported('power')

def fn(name, *a):
    if len(a) == 1 and isconst(a[0]):
        if name == 'cos' and isc(a[0], 0): return ONE
        if name in ('sin', 'arctan') and isc(a[0], 0): return ZERO
        if name in ('floor', 'ceil') and a[0].args[1] == 0:
            return const(getattr(math, name)(a[0].args[0]))
    if any(x.op == 'nonfin' for x in a): raise Unsupported(name+' of a non finite constant')
    s = 'R' if name in ('floor', 'ceil', 'angle', 'abs', 're', 'im', 'sign', 'arctan') else ('C' if any(x.sort == 'C' for x in a) else 'R')
    return mk(name, a, s, '')

@_memo
def fconj(a):
    if a.sort == 'R': return a
    if isconst(a): return const(a.args[0], -a.args[1])
    if a.op == 'conj': return a.args[0]
    if a.op in ('add', 'mul'): 
        f = add if a.op == 'add' else mul
        return f(fconj(a.args[0]), fconj(a.args[1]))
    if a.op == 'inv': return inv(fconj(a.args[0]))
    return mk('conj', (a,), 'C')

@_memo
def fre(a):
    if a.sort == 'R': return a
    if isconst(a): return const(a.args[0])
    if a.op == 'log': return flog(fabs(a.args[0]))
    if a.op == 'add': return add(fre(a.args[0]), fre(a.args[1]))
    if a.op == 'mul':
        p, q = a.args
        if p.sort == 'R': return mul(p, fre(q))
        if q.sort == 'R': return mul(q, fre(p))
        if isconst(p): return add(mul(fre(p), fre(q)), neg(mul(fim(p), fim(q))))
    return mk('re', (a,), 'R')

@_memo
def fim(a):
    if a.sort == 'R': return ZERO
    if isconst(a): return const(a.args[1])
    if a.op == 'log': return fangle(a.args[0])
    if a.op == 'add': return add(fim(a.args[0]), fim(a.args[1]))
    if a.op == 'mul':
        p, q = a.args
        if p.sort == 'R': return mul(p, fim(q))
        if q.sort == 'R': return mul(q, fim(p))
        if isconst(p): return add(mul(fre(p), fim(q)), mul(fim(p), fre(q)))
    return mk('im', (a,), 'R')

_abs = {}
def fabs(a):
    r = _abs.get(a.id)
    if r is not None: return r
    r = fabs1(a)
    if not (a.sort == 'R' and core(a)[1].op == 'log'): _abs[a.id] = r
    return r
def fabs1(a):
    if a.op == 'nonfin': return mk('nonfin', ('inf',), 'R') if 'inf' in a.args[0] else a
    if isconst(a):
        if a.args[1] == 0: return const(abs(a.args[0]))
        if a.args[0] == 0: return const(abs(a.args[1]))
        return fsqrt(const(a.args[0]**2+a.args[1]**2))
    if a.sort == 'R':
        if a.sgn: return a
        if neg(a).sgn: return neg(a)
        k = core(a)[1]
        if k.op == 'log' and _decider[0] is not None:
            return neg(a) if cmp('lt', a, ZERO) else a
    if a.op == 'conj': return fabs(a.args[0])
    if a.op == 'mul' : return mul(fabs(a.args[0]), fabs(a.args[1]))
    if a.op == 'inv' : return inv(fabs(a.args[0]))
    return mk('abs', (a,), 'R', '0+')

def fsqrt(a):
    if a.op == 'nonfin' and a.args[0] == 'inf': return a
    if isconst(a) and a.args[1] == 0:
        q = a.args[0]
        if q < 0: return mul(I_, fsqrt(const(-q)))
        n, d = math.isqrt(q.numerator), math.isqrt(q.denominator)
        if n*n == q.numerator and d*d == q.denominator: return const(Fr(n, d))
        return mk('sqrt', (a,), 'R', '+')
    if a.op == 'mul' and a.args[0] is a.args[1] and a.sort == 'R': return fabs(a.args[0])
    if a.sort == 'R' and neg(a).sgn == '+': return mul(I_, fsqrt(neg(a)))      # of a complex number with zero imaginary part (+0)
    if a.op == 'mul' and a.sort == 'R' and a.args[0].sgn == '+' == a.args[1].sgn and not isconst(a.args[0]):
        return mul(fsqrt(a.args[0]), fsqrt(a.args[1]))
    if a.op == 'inv' and a.sort == 'R' and a.sgn == '+': return inv(fsqrt(a.args[0]))
    if a.op == 'mul' and isconst(a.args[0]) and a.args[0].args[1] == 0 and a.args[0].args[0] > 0:
        r = fsqrt(a.args[0])
        if isconst(r): return mul(r, fsqrt(a.args[1]))
    return mk('sqrt', (a,), a.sort, a.sgn)

def fexp(a):
    if isc(a, 0): return ONE
    if a.op == 'log': return a.args[0]
    return mk('exp', (a,), a.sort, '+' if a.sort == 'R' else '')

def flog(a):
    if isc(a, 1): return ZERO
    if a.op == 'exp' and a.sort == 'R': return a.args[0]
    if isc(a, 0): return mk('nonfin', ('-inf',), 'R')
    if isconst(a) and a.args[1] == 0 and a.args[0] > 0:
        return mk('log', (a,), 'R', '+') if a.args[0] > 1 else neg(flog(inv(a)))
    if a.sort == 'R' and a.sgn == '+' and a.op in ('mul', 'inv'):
        f = factors(a)
        if any(t.op == 'exp' for t, _ in f.values()):
            # log(x exp(y)) = log x + y
            r, rest = ZERO, ONE
            for t, e in f.values():
                if t.op == 'exp': r = add(r, mul(const(e), t.args[0]))
                elif e.denominator == 1: rest = mul(rest, ipow(t, int(e)))
                else: rest = mul(rest, fsqrt(ipow(t, int(2*e)))) if e.denominator == 2 else mul(rest, fexp(mul(const(e), flog(t))))
            return add(r, flog(rest))
    return mk('log', (a,), a.sort, '')

def factors(a):
    """a positive real as a product of powers of terms"""
    f = {}
    todo = [(a, Fr(1))]
    while todo:
        t, e = todo.pop()
        if t.op == 'mul' and all(x.sgn == '+' for x in t.args): todo += [(x, e) for x in t.args]
        elif t.op == 'inv': todo.append((t.args[0], -e))
        elif t.op == 'sqrt': todo.append((t.args[0], e/2))
        else:
            o = f.get(t.id, (t, 0))[1]+e
            if o: f[t.id] = (t, o)
            else: f.pop(t.id, None)
    return f

def core(d):
    """(sign, c) with d = sign * positive * c"""
    sg = 1
    while True:
        if d.op == 'mul':
            p, q = d.args
            if p.sort == 'R' and p.sgn == '+': d = q; continue
            if q.sort == 'R' and q.sgn == '+': d = p; continue
            if isconst(p) and p.sort == 'R' and p is not ZERO: sg, d = -sg, q; continue
            if p.op == 'inv' and p.sort == 'R' and p.args[0].sgn == '+': d = q; continue
            if q.op == 'inv' and q.sort == 'R' and q.args[0].sgn == '+': d = p; continue
        if d.op == 'inv' and d.sort == 'R': d = d.args[0]; continue
        return sg, d

def fsinh(a):
    e = fexp(a); return mul(HALF, add(e, neg(inv(e))))
def fcosh(a):
    e = fexp(a); return mul(HALF, add(e, inv(e)))

def fangle(a):
    if isconst(a) and a.args[1] == 0 and a.args[0] >= 0: return ZERO
    if a.sort == 'R' and a.sgn: return ZERO
    if a.op == 'mul' and a.args[0].sort == 'R' and a.args[0].sgn == '+': return fangle(a.args[1])
    if a.op == 'mul' and a.args[1].sort == 'R' and a.args[1].sgn == '+': return fangle(a.args[0])
    return mk('angle', (a,), 'R')

PI = sym('PI', 'R', '+')

def _nonzero(t):
    """syntactically non zero"""
    return (isconst(t) and t is not ZERO) or t.sgn == '+' or neg(t).sgn == '+'

def eq(a, b):
    if a is b: return True
    if isconst(a) and isconst(b): return a.args == b.args
    if a.op == 'nonfin' or b.op == 'nonfin': return False   # symbols denote finite numbers
    d = add(a, neg(b))
    if isconst(d): return d is ZERO
    if d.sgn == '+' or neg(d).sgn == '+': return False
    if b is ZERO and a.op in ('abs', 'sqrt', 'conj'): return eq(a.args[0], ZERO)
    if b is ZERO and a.op in ('exp', 'inv'): return False
    if b is ZERO and a.sort == 'R':
        k = core(a)[1]
        if k.op == 'log' and k.sort == 'R': return eq(k.args[0], ONE)
    if b is ZERO and a.op == 'mul':
        u, v = eq(a.args[0], ZERO), eq(a.args[1], ZERO)
        if u is False: return v
        if v is False: return u
    if identical(d): return True
    return SBool('eq', a, b)

_ident = [None]
def identical(d):
    return bool(_ident[0] and _ident[0](d))

def cmp(op, a, b):
    a, b = lift(a), lift(b)
    if a is None or b is None: return NotImplemented
    if a.op == 'nonfin' or b.op == 'nonfin':
        va = float(a.args[0]) if a.op == 'nonfin' else 0.
        vb = float(b.args[0]) if b.op == 'nonfin' else 0.
        return va < vb if op == 'lt' else va <= vb
    if a.sort == 'C' or b.sort == 'C':
        if a.op == 'const' and a.args[1] == 0 or a.sort == 'R': pass
        raise TypeError("'<' not supported between complex values")
    if isconst(a) and isconst(b):
        return a.args[0] < b.args[0] if op == 'lt' else a.args[0] <= b.args[0]
    d = add(b, neg(a))          # a < b  <=>  d > 0
    if isconst(d): return d.args[0] > 0 if op == 'lt' else d.args[0] >= 0
    nd = neg(d)
    sg, k = core(d)
    if k.op == 'log' and k.sort == 'R':
        x = k.args[0]
        return cmp(op, ONE, x) if sg > 0 else cmp(op, x, ONE)
    if op == 'lt':
        if d.sgn == '+': return True
        if nd.sgn: return False
    else:
        if d.sgn: return True
        if nd.sgn == '+': return False
    return SBool(op, a, b)

def show(t, depth=6):
    if t.op == 'const':
        r, i = t.args
        return str(r) if not i else f'({r}+{i}i)'
    if t.op == 'sym': return t.args[0]
    if depth == 0: return '…'
    a = [show(x, depth-1) if isinstance(x, Term) else str(x) for x in t.args]
    if t.op == 'add': return f'({a[0]} + {a[1]})'
    if t.op == 'mul': return f'{a[0]}*{a[1]}'
    if t.op == 'inv': return f'1/({a[0]})'
    return f'{t.op}({", ".join(a)})'

def topo(roots):
    seen, out = set(), []
    for r in roots:
        st = [(r, False)]
        while st:
            t, done = st.pop()
            if done: out.append(t); continue
            if t.id in seen: continue
            seen.add(t.id)
            st.append((t, True))
            for a in t.args:
                if isinstance(a, Term) and a.id not in seen: st.append((a, False))
                elif isinstance(a, SBool):
                    for x in bool_terms(a):
                        if x.id not in seen: st.append((x, False))
    return out

def bool_terms(b):
    if isinstance(b, Term): return [b]
    if isinstance(b, SBool):
        r = []
        for a in b.args: r += bool_terms(a)
        return r
    return []

def syms(roots):
    return [t for t in topo(roots) if t.op in ('sym', 'app')]
