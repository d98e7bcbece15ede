"""Vectorised double precision evaluation of terms at many points at once: finds
points that satisfy a path condition quickly (they are confirmed in 50 digits)."""
import random, hashlib
import numpy as np
import mpmath as mp
from .term import Term, SBool, topo, Unsupported
N = 256
_cache = {}
def reset(): _cache.clear()

def draw(seed, b, name, f):
    k = (seed, b, name)
    if k not in _cache:
        r = random.Random(repr(k))
        v = [f(r) for _ in range(N)]
        _cache[k] = (v, np.array([complex(x) if isinstance(x, mp.mpc) else float(x) for x in v]))
    return _cache[k]

class Vec:
    def __init__(s, env):
        s.env, s.val = env, {}
        s.ok = np.ones(N, dtype=bool)
    def ev(s, t):
        if t.id in s.val: return s.val[t.id]
        with np.errstate(all='ignore'):
            for u in topo_missing(t, s.val):
                s.val[u.id] = s.ev1(u)
        return s.val[t.id]
    def ev1(s, t):
        op, v = t.op, s.val
        a = [v[x.id] for x in t.args if isinstance(x, Term)]
        if op == 'const':
            r = float(t.args[0])
            return complex(r, float(t.args[1])) if t.args[1] else r
        if op == 'sym':
            if t.args[0] == 'PI': return np.pi
            if t.args[0] in s.env: return s.env[t.args[0]]
            raise Unsupported('vec '+t.args[0])
        if op == 'add': return a[0]+a[1]
        if op == 'mul': return a[0]*a[1]
        if op == 'inv': return 1/a[0] if isinstance(a[0], np.ndarray) else (1/a[0] if a[0] else np.nan)
        if op == 'conj': return np.conj(a[0])
        if op == 're': return np.real(a[0])
        if op == 'im': return np.imag(a[0])
        if op == 'abs': return np.abs(a[0])
        if op == 'sqrt':
            if t.sort == 'R': return np.sqrt(np.real(a[0]))
            return np.sqrt(a[0]+0j)
        if op == 'exp': return np.exp(a[0])
        if op == 'log': return np.log(np.real(a[0])) if t.sort == 'R' else np.log(a[0]+0j)
        if op == 'angle': return np.angle(a[0])
        if op == 'sin': return np.sin(a[0])
        if op == 'cos': return np.cos(a[0])
        if op == 'arctan': return np.arctan(a[0])
        if op == 'floor': return np.floor(a[0])
        if op == 'ceil': return np.ceil(a[0])
        raise Unsupported('vec '+op)
    def b(s, c):
        """(surely true, surely false)"""
        if isinstance(c, (bool, np.bool_)):
            return np.full(N, bool(c)), np.full(N, not c)
        if c.op == 'not':
            t, f = s.b(c.args[0]); return f, t
        if c.op in ('and', 'or'):
            t1, f1 = s.b(c.args[0]); t2, f2 = s.b(c.args[1])
            return (t1 & t2, f1 | f2) if c.op == 'and' else (t1 | t2, f1 & f2)
        x, y = s.ev(c.args[0]), s.ev(c.args[1])
        with np.errstate(all='ignore'):
            m = 1e-7*(1e-30+np.abs(x)+np.abs(y))
            d = np.abs(x-y)
            fin = np.isfinite(d)
            if c.op == 'eq': r = (d <= 1e-11*(1e-30+np.abs(x)+np.abs(y))) & fin, (d > m) & fin
            else:
                e = np.real(y)-np.real(x)
                r = (e > m) & fin, (e < -m) & fin
                if c.op == 'le':
                    same = (d == 0) & fin
                    r = r[0] | same, r[1]
                else:
                    same = (d == 0) & fin
                    r = r[0], r[1] | same
        return np.broadcast_to(r[0], (N,)), np.broadcast_to(r[1], (N,))

def topo_missing(t, have):
    out, st, seen = [], [(t, False)], set()
    while st:
        u, done = st.pop()
        if done: out.append(u); continue
        if u.id in seen or u.id in have: continue
        seen.add(u.id); st.append((u, True))
        for a in u.args:
            if isinstance(a, Term) and a.id not in seen and a.id not in have: st.append((a, False))
    return out
