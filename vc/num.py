"""Numeric evaluation of terms (50 digits): used to refute identities, to find
points satisfying a path condition and to replay them on the real code."""
import random, hashlib
import mpmath as mp
from .term import *
from .term import Unsupported, SBool
mp.mp.dps = 50

class Dom(Exception): pass

class Num:
    def __init__(s, env):
        s.val = {}
        s.env = env           # sym name -> number
        s.apps = {}
    def ev(s, t):
        if t.id in s.val: return s.val[t.id]
        for u in topo([t]):
            if u.id not in s.val: s.val[u.id] = s.ev1(u)
        return s.val[t.id]
    def ev1(s, t):
        op, v = t.op, s.val
        a = [v[x.id] for x in t.args if isinstance(x, Term)]
        if op == 'const':
            re, im = t.args
            r = mp.mpf(re.numerator)/re.denominator
            return mp.mpc(r, mp.mpf(im.numerator)/im.denominator) if im else r
        if op == 'sym':
            if t.args[0] == 'PI': return mp.pi
            if t.args[0] in s.env:
                x = s.env[t.args[0]]
                return mp.mpc(x) if isinstance(x, (complex, mp.mpc)) else mp.mpf(x)
            raise Unsupported('no value for '+t.args[0])
        if op == 'add': return a[0]+a[1]
        if op == 'mul': return a[0]*a[1]
        if op == 'inv':
            if a[0] == 0: raise Dom('1/0')
            return 1/a[0]
        if op == 'conj': return mp.conj(a[0])
        if op == 're': return mp.re(a[0])
        if op == 'im': return mp.im(a[0])
        if op == 'abs': return abs(a[0])
        if op == 'sqrt':
            if t.sort == 'R':
                if mp.re(a[0]) < 0: raise Dom('sqrt')
                return mp.sqrt(mp.re(a[0]))
            return mp.sqrt(a[0])
        if op == 'exp':
            if abs(mp.re(a[0])) > 1e5: raise Dom('exp')
            return mp.exp(a[0])
        if op == 'log':
            if a[0] == 0 or (t.sort == 'R' and mp.re(a[0]) < 0): raise Dom('log')
            return mp.log(a[0])
        if op == 'angle': return mp.arg(a[0])
        if op == 'sin': return mp.sin(a[0])
        if op == 'cos': return mp.cos(a[0])
        if op == 'arctan': return mp.atan(a[0])
        if op == 'floor': return mp.floor(a[0])
        if op == 'ceil': return mp.ceil(a[0])
        if op == 'ite': return s.ev(t.args[1]) if s.b(t.args[0]) else s.ev(t.args[2])
        if op == 'app':
            k = (t.args[0],)+tuple(mp.nstr(x, 30) for x in a)
            if k not in s.apps:
                r = random.Random(repr(k))
                s.apps[k] = mp.mpf(r.uniform(.5, 2)) if t.sort == 'R' else mp.mpc(r.uniform(-1, 1), r.uniform(-1, 1))
            return s.apps[k]
        raise Unsupported('num '+op)
    def b(s, c):
        if isinstance(c, bool): return c
        if c.op == 'not': return not s.b(c.args[0])
        if c.op == 'and': return s.b(c.args[0]) and s.b(c.args[1])
        if c.op == 'or': return s.b(c.args[0]) or s.b(c.args[1])
        x, y = s.ev(c.args[0]), s.ev(c.args[1])
        if c.op == 'eq': return close(x, y)
        if c.op == 'lt': return mp.re(x) < mp.re(y) and not close(x, y)
        if c.op == 'le': return mp.re(x) <= mp.re(y) or close(x, y)
        raise Unsupported(c.op)
def close(x, y, tol=mp.mpf(10)**-30):
    return abs(x-y) <= tol*(1+abs(x)+abs(y))
