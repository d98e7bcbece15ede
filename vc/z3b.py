"""Translation of real/complex conditions to z3 (non linear real arithmetic)."""
import z3
from .term import *
from .term import SBool, Unsupported

class Tr:
    def __init__(s, opaque=None):
        s.memo = {}; s.side = []; s.opaque = opaque
    def lin(s, t):
        """t as a linear combination of opaque atoms"""
        if t.id in s.memo: return s.memo[t.id]
        for u in topo_lin(t):
            if u.id in s.memo: continue
            if u.op == 'const': r = z3.Q(u.args[0].numerator, u.args[0].denominator)
            elif u.op == 'add': r = s.memo[u.args[0].id]+s.memo[u.args[1].id]
            elif u.op == 'mul' and u.args[0].op == 'const' and u.args[0].sort == 'R': r = s.memo[u.args[0].id]*s.memo[u.args[1].id]
            else:
                r = z3.Real(f't{s.opaque(u)}')
                if u.sgn == '+': s.side.append(r > 0)
                elif u.sgn == '0+' or u.op == 'abs': s.side.append(r >= 0)
            s.memo[u.id] = r
        return s.memo[t.id]
    def c(s, t):
        """(re, im) z3 expressions; im None for reals"""
        if t.id in s.memo: return s.memo[t.id]
        for u in topo([t]):
            if u.id not in s.memo: s.memo[u.id] = s.c1(u)
        return s.memo[t.id]
    def c1(s, t):
        op = t.op; m = [s.memo[a.id] for a in t.args if isinstance(a, Term)]
        if op == 'const':
            q = lambda f: z3.Q(f.numerator, f.denominator)
            return (q(t.args[0]), q(t.args[1]) if t.args[1] else None)
        if op == 'sym' and t.args[0] == 'PI':
            x = z3.Real('PI'); s.side += [x > z3.Q(314159265, 10**8), x < z3.Q(314159266, 10**8)]
            return (x, None)
        if op == 'add':
            (a, b), (c, d) = m
            return (a+c, None if b is None and d is None else (b if d is None else d if b is None else b+d))
        if op == 'mul':
            (a, b), (c, d) = m
            if b is None and d is None: return (a*c, None)
            if b is None: return (a*c, a*d)
            if d is None: return (a*c, b*c)
            return (a*c-b*d, a*d+b*c)
        if op == 'conj': return (m[0][0], None if m[0][1] is None else -m[0][1])
        if op == 're': return (m[0][0], None)
        if op == 'im': return (m[0][1] if m[0][1] is not None else z3.Q(0, 1), None)
        v = z3.Real(f't{t.id}')
        if op == 'inv':
            a, b = m[0]
            if b is None:
                s.side.append(v*a == 1); return (v, None)
            w = z3.Real(f't{t.id}i')
            s.side += [v*a-w*b == 1, v*b+w*a == 0]
            return (v, w)
        if op == 'abs':
            a, b = m[0]
            s.side += [v >= 0, v*v == (a*a if b is None else a*a+b*b)]
            return (v, None)
        if op == 'sqrt' and t.sort == 'R':
            s.side += [v >= 0, v*v == m[0][0]]
            return (v, None)
        if t.sort == 'R':
            if t.sgn == '+': s.side.append(v > 0)
            elif t.sgn == '0+': s.side.append(v >= 0)
            return (v, None)
        return (v, z3.Real(f't{t.id}i'))
    def b(s, c):
        if isinstance(c, bool): return z3.BoolVal(c)
        if c.op == 'not': return z3.Not(s.b(c.args[0]))
        if c.op == 'and': return z3.And(s.b(c.args[0]), s.b(c.args[1]))
        if c.op == 'or': return z3.Or(s.b(c.args[0]), s.b(c.args[1]))
        if s.opaque:
            if c.op == 'eq':
                if c.args[0].sort == 'C' or c.args[1].sort == 'C': return z3.Bool(f'e{c.args[0].id}_{c.args[1].id}')
                return s.lin(c.args[0]) == s.lin(c.args[1])
            a, p = s.lin(c.args[0]), s.lin(c.args[1])
            return a < p if c.op == 'lt' else a <= p
        (a, b), (p, q) = s.c(c.args[0]), s.c(c.args[1])
        if c.op == 'eq':
            z = z3.Q(0, 1)
            if b is None and q is None: return a == p
            return z3.And(a == p, (b if b is not None else z) == (q if q is not None else z))
        if c.op == 'lt': return a < p
        if c.op == 'le': return a <= p
        raise Unsupported('z3 '+c.op)

def topo_lin(t):
    out, st, seen = [], [(t, False)], set()
    while st:
        u, done = st.pop()
        if done: out.append(u); continue
        if u.id in seen: continue
        seen.add(u.id); st.append((u, True))
        if u.op == 'add' or u.op == 'mul' and u.args[0].op == 'const' and u.args[0].sort == 'R':
            for a in u.args: st.append((a, False))
    return out

STAT = {'calls': 0, 'time': 0.}
def check(conds, ms=400, opaque=None):
    import time
    t0 = time.time()
    try:
        tr = Tr(opaque)
        cs = [tr.b(c) for c in conds]
        sv = z3.Solver(); sv.set('timeout', ms)
        sv.add(*cs); sv.add(*tr.side)
        return str(sv.check())
    except (Unsupported, z3.Z3Exception):
        return 'unknown'
    finally:
        STAT['calls'] += 1; STAT['time'] += time.time()-t0
