"""Randomised identity test over GF(p^2), p = 2^61-1 (p = 3 mod 4, so i^2=-1 is
irreducible and z -> z^p is complex conjugation).  Real symbols take values in
GF(p), positive ones are squares, and the canonical root of a square is itself a
square, which makes sqrt and abs multiplicative just as over the positive reals.
A rational identity of degree d that is false survives one point with probability
<= d/p."""
import random
from fractions import Fraction as Fr
from .term import *
from .term import isconst, isc, topo, Unsupported

P = (1 << 61)-1
class Bad(Exception):
    """this point does not fit (division by zero, non square): draw another"""

def finv(a):
    if a % P == 0: raise Bad('0')
    return pow(a, P-2, P)
def isqr(a): return a == 0 or pow(a, (P-1)//2, P) == 1
def froot(a):
    """the square root of a that is itself a square"""
    if not isqr(a): raise Bad('nqr')
    r = pow(a, (P+1)//4, P)          # a^((p+1)/4) is a power of a square
    return r if isqr(r) else P-r

def cmul(x, y):
    a, b = x; c, d = y
    if b == 0: return (a*c % P, a*d % P)
    if d == 0: return (a*c % P, b*c % P)
    return ((a*c-b*d) % P, (a*d+b*c) % P)
def cadd(x, y): return ((x[0]+y[0]) % P, (x[1]+y[1]) % P)
def cneg(x): return (-x[0] % P, -x[1] % P)
def conj(x): return (x[0], -x[1] % P)
def cinv(x):
    n = finv((x[0]*x[0]+x[1]*x[1]) % P)
    return (x[0]*n % P, -x[1]*n % P)
def cpow(x, n):
    if n < 0: return cpow(cinv(x), -n)
    r = (1, 0)
    while n:
        if n & 1: r = cmul(r, x)
        n >>= 1
        if n: x = cmul(x, x)
    return r
def fq(q): return q.numerator * finv(q.denominator) % P if q.denominator != 1 else q.numerator % P
def csqrt(x):
    a, b = x
    if b == 0:
        if isqr(a): return (froot(a), 0)
        return (0, froot(-a % P))
    n = froot((a*a+b*b) % P)      # needs |x| in GF(p)
    h = finv(2)
    t = (a+n)*h % P
    if not isqr(t): t = (a-n)*h % P
    u = froot(t)
    return (u, b*h % P*finv(u) % P)

D = 5040
class GF:
    def __init__(s, seed, subst=(), squares=()):
        s.rng = random.Random(seed)
        s.subst = dict(subst)   # sym id -> Term
        s.sub_used = False
        # positive terms under a root: only points where they are squares, as positive reals are
        for k in range(20000):
            s.val = {}
            s.E = {}            # exponential table: value -> (root with root^D = E)
            s.L = {}
            s.sqrts = {}
            for t in squares:
                try: v = s.ev(t)
                except Bad: break
                if v[1] or not isqr(v[0]): break
            else: break
        else: raise Unsupported('no point with these squares')

    def new(s, t):
        if t.sort == 'C': return (s.rng.randrange(P), s.rng.randrange(P))
        v = s.rng.randrange(1, P)
        if t.sgn in ('+', '0+'): v = v*v % P
        return (v, 0)

    def ev(s, t):
        if t.id in s.val: return s.val[t.id]
        todo = [(t, False)]
        val = s.val
        while todo:
            u, done = todo.pop()
            if u.id in val: continue
            if not done:
                if u.op == 'sym' and u.id in s.subst:
                    d = s.subst[u.id]
                    if d.id in val: val[u.id] = val[d.id]
                    else: todo.append((u, False)); todo.append((d, False))
                    continue
                if u.op in ('exp', 'sin', 'cos'):
                    val[u.id] = s.ev1(u); continue
                todo.append((u, True))
                for a in u.args:
                    if isinstance(a, Term) and a.id not in val: todo.append((a, False))
            else:
                val[u.id] = s.ev1(u)
        return val[t.id]

    def ev1(s, t):
        op = t.op; v = s.val
        if op == 'const': return (fq(t.args[0]), fq(t.args[1]))
        if op == 'sym': return s.new(t)
        if op == 'add': return cadd(v[t.args[0].id], v[t.args[1].id])
        if op == 'mul': return cmul(v[t.args[0].id], v[t.args[1].id])
        if op == 'inv': return cinv(v[t.args[0].id])
        if op == 'conj': return conj(v[t.args[0].id])
        if op == 're': return (v[t.args[0].id][0], 0)
        if op == 'im': return (v[t.args[0].id][1], 0)
        if op == 'abs':
            a, b = v[t.args[0].id]
            return (froot((a*a+b*b) % P), 0)
        if op == 'sqrt':
            x = v[t.args[0].id]
            if t.sort == 'R': return (froot(x[0]), 0)
            if x not in s.sqrts:
                r = csqrt(x)
                s.sqrts[x] = r; s.sqrts[conj(x)] = conj(r)
            return s.sqrts[x]
        if op == 'exp': return s.exp(t.args[0])
        if op == 'cos':
            e = s.exp(mul(I_, t.args[0])); f = cinv(e)
            return cmul(cadd(e, f), (finv(2), 0))
        if op == 'sin':
            e = s.exp(mul(I_, t.args[0])); f = cinv(e)
            return cmul(cadd(e, cneg(f)), (0, -finv(2) % P))
        if op in ('log', 'angle', 'app', 'arctan', 'ite', 'floor', 'ceil'):
            k = (op,)+tuple(s.bkey(a) for a in t.args)
            if k not in s.L: s.L[k] = s.new(t)
            return s.L[k]
        raise Unsupported('GF '+op)

    def bkey(s, a):
        if isinstance(a, Term): return s.ev(a)
        if isinstance(a, SBool): return (a.op,)+tuple(s.bkey(x) for x in a.args)
        return a

    # --- exponentials
    def monos(s, t, depth=0):
        """t as {key: [coef(re,im) Fraction pair, mono]} with mono a tuple of (atom,exponent)"""
        return expand(s, t)

    def exp(s, t):
        r = (1, 0)
        for mono, (ca, cb) in expand(s, t).items():
            if mono == ():
                k = (1, 0)
                if ca: r = cmul(r, s.E_pow(k, ca))
                if cb: r = cmul(r, s.E_pow((0, 1), cb))
                continue
            if len(mono) == 1 and mono[0][1] == 1:
                at = mono[0][0]
                if at.op == 'log' and cb == 0:
                    x = s.ev(at.args[0])
                    r = cmul(r, s.rpow(x, ca)); continue
                if at.op == 'angle' and ca == 0 and cb.denominator == 1:
                    x = s.ev(at.args[0])
                    m = (froot((x[0]**2+x[1]**2) % P), 0)
                    r = cmul(r, cpow(cmul(x, cinv(m)), int(cb))); continue
            if len(mono) == 1 and mono[0][0].t is PI and mono[0][1] == 1 and ca == 0 and (cb*2).denominator == 1:
                r = cmul(r, [(1, 0), (0, 1), (P-1, 0), (0, P-1)][int(cb*2) % 4]); continue
            k = (1, 0)
            for at, e in mono: k = cmul(k, cpow(s.ev(at.t), e))
            if ca: r = cmul(r, s.E_pow(k, ca))
            if cb: r = cmul(r, s.E_pow(cmul(k, (0, 1)), cb))
        return r

    def rpow(s, x, q):
        if q.denominator == 1: return cpow(x, int(q))
        if q.denominator == 2 and x[1] == 0: return cpow((froot(x[0]), 0), int(q.numerator))
        raise Unsupported('GF rational power')

    def E_pow(s, k, q):
        n = q*D
        if n.denominator != 1: raise Unsupported('GF exp exponent')
        if k not in s.E:
            ck, nk = conj(k), cneg(k)
            if ck == k:
                r = s.rng.randrange(2, P); r = (r*r % P, 0)
            elif ck == nk:
                u = (s.rng.randrange(1, P), s.rng.randrange(1, P))
                r = cmul(u, cinv(conj(u)))
            else:
                r = (s.rng.randrange(P), s.rng.randrange(P))
            s.E[k] = r; s.E[ck] = conj(r)
            i = cinv(r)
            s.E[nk] = i; s.E[cneg(ck)] = conj(i)
        return cpow(s.E[k], int(n))

class At:
    """a term as dictionary key (terms themselves compare symbolically)"""
    __slots__ = ('t',)
    def __init__(s, t): s.t = t
    def __hash__(s): return s.t.id
    def __eq__(s, o): return s.t is o.t
    op = property(lambda s: s.t.op)
    args = property(lambda s: s.t.args)
    id = property(lambda s: s.t.id)

def pmul(A, B):
    R = {}
    for m, (a, b) in A.items():
        for n, (c, d) in B.items():
            k = mmul(m, n)
            x, y = R.get(k, (0, 0))
            R[k] = (x+a*c-b*d, y+a*d+b*c)
    return {k: v for k, v in R.items() if v != (0, 0)}
def mmul(m, n):
    if not m: return n
    if not n: return m
    d = {}
    for at, e in m+n:
        d[at.id] = (at, d.get(at.id, (at, 0))[1]+e)
    return tuple((at, e) for _, (at, e) in sorted(d.items()) if e)
def expand(s, t):
    """polynomial over atoms with coefficients in Q(i), integer exponents (negative for single monomials)"""
    memo = {}
    def go(t):
        if t.id in memo: return memo[t.id]
        if t.op == 'const': r = {(): t.args} if t is not ZERO else {}
        elif t.op == 'sym' and t.id in s.subst: r = go(s.subst[t.id])
        elif t.op == 'add':
            r = dict(go(t.args[0]))
            for k, (c, d) in go(t.args[1]).items():
                a, b = r.get(k, (0, 0))
                r[k] = (a+c, b+d)
                if r[k] == (0, 0): del r[k]
        elif t.op == 'mul':
            r = pmul(go(t.args[0]), go(t.args[1]))
        elif t.op == 'inv':
            g = go(t.args[0])
            if len(g) == 1:
                (m, (a, b)), = g.items()
                n = Fr(a)*a+Fr(b)*b
                r = {tuple((at, -e) for at, e in m): (a/n, -b/n)}
            else: r = {((At(t), 1),): (Fr(1), Fr(0))}
        else:
            if t.op == 'sqrt':
                # sqrt(m)^2 reduces
                pass
            r = {((At(t), 1),): (Fr(1), Fr(0))}
        # sqrt(x)^2 -> x
        out = {}
        for m, c in r.items():
            f = {(): c}
            for at, e in m:
                if at.op == 'sqrt' and abs(e) >= 2:
                    g = go(at.args[0])
                    if len(g) == 1:
                        (mm, (a, b)), = g.items()
                        h = e//2 if e > 0 else -((-e)//2)
                        if a and b == 0 :
                            f = pmul(f, {tuple((x, y*h) for x, y in mm): (Fr(a)**h, Fr(0))})
                            if e-2*h: f = pmul(f, {((at, e-2*h),): (Fr(1), Fr(0))})
                            continue
                f = pmul(f, {((at, e),): (Fr(1), Fr(0))})
            for k, (a, b) in f.items():
                x, y = out.get(k, (0, 0))
                out[k] = (x+a, y+b)
        r = {k: v for k, v in out.items() if v != (0, 0)}
        memo[t.id] = r
        return r
    return go(t)
