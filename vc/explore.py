"""Path exploration and obligation discharge for the symbolic runs."""
import random, time, signal, traceback, sys, math
import mpmath as mp
import numpy as _np
from . import term as T, gf, num, shim
from .term import Term, SBool, Unsupported, lift, bool_terms, syms, isconst
from .num import Num, Dom
from . import vec
import numpy

class Infeasible(BaseException): pass
class PathLimit(BaseException): pass
class Timeout(BaseException): pass

NPOINTS = 3          # GF points an identity must pass
MAXTRY = 60

class Prover:
    """one per path: facts, substitutions, GF evaluators, numeric points"""
    def __init__(s, seed, ranges):
        s.facts = []          # SBool (assumed or decided true)
        s.subst = {}          # sym id -> Term (solved equalities)
        s.substorder = []
        s.unsolved = []
        s.seed = seed
        s.ranges = ranges     # sym name -> sampler(rng)
        s.gfs = []
        s.squares = []       # terms known to be positive
        s.zc = {}
        s.points = []
        s.ptry = 0
        s.vecs = []
        s.canon_ = {}
        s.stats = {}
        s.forced = {}
    # ---- facts
    def assume(s, b):
        if b is True: return
        if b is False: raise Infeasible()
        if b.op == 'and':
            s.assume(b.args[0]); s.assume(b.args[1]); return
        if b.op == 'not':
            c = b.args[0]
            if c.op == 'not': return s.assume(c.args[0])
            if c.op == 'or':
                s.assume(SBool('not', c.args[0])); s.assume(SBool('not', c.args[1])); return
            if c.op == 'lt': b = SBool('le', c.args[1], c.args[0])
            elif c.op == 'le': b = SBool('lt', c.args[1], c.args[0])
        s.facts.append(b)
        if b.op == 'eq': s.solve(b)
        if s.points: s.points = [p for p in s.points if s.holds(b, p) is True]
        s.ptry = 0
        s.zc = {}
    def solve(s, b):
        d = T.add(b.args[0], T.neg(b.args[1]))
        class F: subst = s.subst
        e = gf.expand(F, d)
        cand = []
        for m, c in e.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sym' and m[0][0].t is not T.PI:
                x = m[0][0].t
                if all(n == m or all(not occurs(x, at.t) for at, _ in n) for n in e): cand.append((x, c))
        # a real symbol can be solved for only when the rest is real; prefer complex ones
        cand.sort(key=lambda t: (t[0].sgn == '+', t[0].sort == 'R', -t[0].id))
        cand = [(x, c, T.ONE, (x,)) for x, c in cand]
        if not cand:
            # linear in x, with a coefficient that is a product of positive numbers
            for m, c in e.items():
                for at, ex in m:
                    x = at.t
                    if ex != 1 or at.op != 'sym' or x is T.PI: continue
                    cof = [(a, k) for a, k in m if a is not at]
                    if not all(a.t.sgn == '+' for a, k in cof): continue
                    if any(occurs(x, a.t) for n in e for a, _ in n if (n != m or a is not at)): continue
                    f = T.ONE
                    for a, k in cof: f = T.mul(f, T.ipow(a.t, k))
                    cand.append((x, c, f, m))
            cand.sort(key=lambda t: (t[0].sgn == '+', t[0].sort == 'R', -t[0].id))
        for x, c, fac, mono in cand:
            rest = T.ZERO
            for m, k in e.items():
                if m == mono or len(m) == 1 and m[0][0].t is x and m[0][1] == 1: continue
                t = T.const(*k)
                for at, ex in m: t = T.mul(t, T.ipow(at.t, ex))
                rest = T.add(rest, t)
            v = T.mul(T.neg(rest), T.inv(T.mul(T.const(*c), fac)))
            if x.sort == 'R' and v.sort == 'C':
                if isconst(v): raise Infeasible()
                continue
            if x.sgn == '+' and (v is T.ZERO or T.neg(v).sgn) or x.sgn == '0+' and T.neg(v).sgn == '+': raise Infeasible()
            s.subst[x.id] = v; s.substorder.append(x)
            s.gfs = []; s.points = []; s.vecs = []; s.ptry = 0; s.canon_ = {}
            return
        s.unsolved.append(b)
    # ---- GF identity
    def zero(s, t, need=NPOINTS):
        """True: identically zero (randomised); False: not; None: could not tell"""
        if t is T.ZERO: return True
        if isconst(t): return False
        if t.id in s.zc: return s.zc[t.id]
        good = 0; i = 0; res = None; end = time.time()+20
        while i < MAXTRY*(1+good):
            if i >= len(s.gfs): s.gfs.append(gf.GF(f'{s.seed}/{i}', s.subst, s.squares))
            try:
                v = s.gfs[i].ev(t)
            except gf.Bad:
                i += 1
                if time.time() > end: break
                continue
            except RecursionError:
                raise Unsupported('depth')
            if v != (0, 0): res = False; break
            good += 1; i += 1
            if good >= need: res = True; break
        s.zc[t.id] = res
        return res
    def same(s, e, d):
        """e and d are one expression up to sign"""
        try: return s.zero(T.add(e, T.neg(d)), 1) is True and s.zero(T.add(e, T.neg(d))) is True or s.zero(T.add(e, d)) is True
        except Unsupported: return False
    # ---- numeric points
    def point(s, rng, forced=None):
        names = {}
        if forced: names.update(forced)
        else:
            for n, f in s.ranges.items(): names[n] = f(rng)
        names.update({k: mp.mpf(v) for k, v in shim.CONST_VAL.items()})
        n = Num(names)
        for x in s.substorder:
            # later substitutions may depend on earlier symbols: evaluate lazily
            pass
        for x in reversed(s.substorder):
            v = Num(dict(names)).ev(s.full(s.subst[x.id]))
            if x.sort == 'R':
                v = mp.re(v)
                if x.sgn == '+' and v <= 0: return None
                if x.sgn == '0+' and v < 0: return None
            names[x.args[0]] = v
        n = Num(names)
        return n
    def full(s, t):
        return substitute(t, s.subst)
    def holds(s, b, p):
        try: return p.b(b)
        except Dom: return None
        except Unsupported: return None
    # -- vectorised batches
    def batch(s, i):
        while len(s.vecs) <= i:
            b = len(s.vecs)
            env = {n: vec.draw(s.seed, b, n, f)[1] for n, f in s.ranges.items()}
            env.update(shim.CONST_VAL)
            v = vec.Vec(env)
            for x in reversed(s.substorder):
                w = vec.Vec(dict(env)).ev(s.full(s.subst[x.id]))
                w = np_full(w)
                if x.sort == 'R':
                    v.ok &= np_real_ok(w)
                    w = w.real if w.dtype.kind == 'c' else w
                    if x.sgn == '+': v.ok &= w > 0
                    elif x.sgn == '0+': v.ok &= w >= 0
                env[x.args[0]] = w
            v.nf = 0; v.nr = len(s.ranges)
            s.vecs.append(v)
        v = s.vecs[i]
        if v.nr < len(s.ranges):
            v.nr = len(s.ranges)
            for n, f in s.ranges.items():
                if n not in v.env: v.env[n] = vec.draw(s.seed, i, n, f)[1]
        while v.nf < len(s.facts):
            b = s.facts[v.nf]; v.nf += 1
            if b.op == 'eq' and not any(b is u for u in s.unsolved): continue
            v.ok = v.ok & v.b(b)[0]
            if not v.ok.any(): v.nf = len(s.facts)
        return v
    def masks(s, b, most=6):
        """(some point where b holds, some point where it does not), from a few batches"""
        T_ = F_ = False
        for i in range(most):
            v = s.batch(i)
            if not v.ok.any(): continue
            t, f = v.b(b)
            T_ = T_ or bool((t & v.ok).any()); F_ = F_ or bool((f & v.ok).any())
            if T_ and F_ or i >= 1 and (T_ or F_) and v.ok.sum() > 4: break
        return T_, F_
    def sample(s, want=8, extra=(), most=6):
        """points satisfying all facts (+extra)"""
        out = []
        for i in range(most):
            try:
                v = s.batch(i)
                ok = v.ok.copy()
                for b in extra: ok &= v.b(b)[0]
            except Unsupported: break
            for k in numpy.nonzero(ok)[0][:want-len(out)]:
                names = {n: vec.draw(s.seed, i, n, f)[0][k] for n, f in s.ranges.items()}
                try: p = s.point(None, names)
                except (Dom, Unsupported): continue
                if p is None: continue
                if all(s.holds(b, p) is True for b in s.facts if b.op != 'eq' or any(b is u for u in s.unsolved)) and all(s.holds(b, p) is True for b in extra): out.append(p)
            if len(out) >= want: break
        return out
    def pts(s):
        if len(s.points) < 6 and (s.ptry < 2 or not s.points):
            s.ptry += 1
            s.points = s.sample()
        return s.points
    # ---- conditions
    def possible(s, b):
        """may b hold on this path?  False only when refuted"""
        try:
            if s.masks(b)[0]: return True
        except Unsupported:
            for p in s.pts():
                if s.holds(b, p) is True: return True
        r = s.z3([b])
        if r == 'unsat': return False
        if r == 'unknown' or r == 'sat': return True
    def small(s, b):
        return all(t.op in ('const', 'sym', 'add', 'mul', 'inv', 'abs') and t.sort == 'R' for t in topo_upto(bool_terms(b), 60))
    def canon(s, t):
        """a representative of the magnitudes equal to t"""
        if t.op != 'abs': return t.id
        if t.id not in s.canon_:
            k = []
            i = 0
            while len(k) < 2 and i < 40:
                if i >= len(s.gfs): s.gfs.append(gf.GF(f'{s.seed}/{i}', s.subst, s.squares))
                try:
                    x, y = s.gfs[i].ev(t.args[0]); k.append((i, (x*x+y*y) % gf.P))
                except gf.Bad: pass
                except Unsupported: break
                i += 1
            s.canon_[t.id] = s.canon_.setdefault(tuple(k), t.id) if len(k) == 2 else t.id
        return s.canon_[t.id]
    def z3(s, extra, ms=400):
        ex = [s.fullb(x) for x in extra]
        # only facts about connected symbols matter
        facts = [s.fullb(x) for x in s.facts]
        ids = set()
        for x in ex: ids |= symids(x)
        facts = [(f, symids(f)) for f in facts]
        keep, more = [], True
        while more:
            more = False
            rest = []
            for f in facts:
                if f[1] & ids or not f[1]: keep.append(f[0]); ids |= f[1]; more = True
                else: rest.append(f)
            facts = rest
        keep.sort(key=lambda f: str(f.key()))
        k = (tuple(f.key() for f in keep), tuple(x.key() for x in ex), ms)
        if k not in Z3MEMO:
            if len(Z3MEMO) > 20000: Z3MEMO.clear()
            Z3MEMO[k] = (s.z3_(keep, ex, ms), keep, ex)
        return Z3MEMO[k][0]
    def z3_(s, facts, ex, ms):
        from .z3b import check
        if facts and s.small(ex[0]) and len(ex) == 1:
            if s.z3_alone(ex, ms) == 'unsat': return 'unsat'
        if check(facts+ex, ms, s.canon) == 'unsat': return 'unsat'      # linear order over opaque atoms
        xs = T.topo([t for x in ex for t in bool_terms(x)])
        if len(xs) > 150 or sum(t.op == 'abs' and t.args[0].sort == 'C' and t.args[0].op != 'sym' for t in xs) > 1: return 'unknown'
        keep = [x for x in facts+ex if len(T.topo(bool_terms(x))) <= 150]
        return check(keep, ms)
    def z3_alone(s, ex, ms):
        from .z3b import check
        k = ((), tuple(x.key() for x in ex), ms)
        if k not in Z3MEMO: Z3MEMO[k] = (check(ex, ms), ex)
        return Z3MEMO[k][0]
    def fullb(s, b):
        if not s.subst: return b
        if isinstance(b, Term): return s.full(b)
        if isinstance(b, SBool): return SBool(b.op, *[s.fullb(a) for a in b.args])
        return b
    def decide(s, b):
        """True/False if forced, None if open"""
        if b.op == 'not':
            r = s.decide(b.args[0]); return None if r is None else not r
        # what was forced on this path stays so: facts are only added
        k = b.key()
        if k in s.forced: return s.forced[k][0]
        r = s.decide1(b)
        if r is not None: s.forced[k] = (r, b)
        return r
    def decide1(s, b):
        if b.op == 'eq':
            z = s.zero(T.add(b.args[0], T.neg(b.args[1])))
            if z is True: return True
            d = T.add(b.args[0], T.neg(b.args[1]))
            for f in s.facts:
                if f.op == 'not' and f.args[0].op == 'eq':
                    x, y = f.args[0].args
                    e = T.add(x, T.neg(y))
                    if e is d or T.add(e, d) is T.ZERO or s.same(e, d): return False
            if not s.possible(b): return False
            return None
        k = b.key()
        for f in s.facts:
            if f.key() == k: return True
            if f.op == 'not' and f.args[0].key() == k: return False
        if b.op == 'lt' and any(f.op == 'le' and f.args[0] is b.args[1] and f.args[1] is b.args[0] for f in s.facts): return False
        if b.op == 'le' and any(f.op == 'lt' and f.args[0] is b.args[1] and f.args[1] is b.args[0] for f in s.facts): return False
        if b.op in ('lt', 'le'):
            try:
                if s.zero(T.add(b.args[0], T.neg(b.args[1]))) is True: return b.op == 'le'
                x, y = [T.ZERO if isinstance(t, Term) and t.op == 'abs' and s.zero(t.args[0]) is True else t for t in b.args]
                if x is T.ZERO and y.sgn == '+': return True
                if y is T.ZERO and x.sgn == '+': return False
                if y is T.ZERO and x.sgn and b.op == 'lt': return False
                if x is T.ZERO and y.sgn and b.op == 'le': return True
            except Unsupported: pass
        nb = SBool('not', b)
        if s.small(b):
            r1 = s.z3([b]); r2 = s.z3([nb]) if r1 != 'unsat' else None
            if r1 == 'unsat': return False
            if r2 == 'unsat': return True
            if r1 == r2 == 'sat': return None
        try: vals = {v for v, x in zip((True, False), s.masks(b)) if x}
        except Unsupported: vals = {s.holds(b, p) for p in s.pts()}
        if True in vals and False in vals: return None
        if True not in vals and not s.possible(b): return False
        if False not in vals and not s.possible(nb): return True
        return None

Z3MEMO = {}
SYMS = {}
def symids(b):
    k = b.key()
    if k not in SYMS:
        if len(SYMS) > 50000: SYMS.clear()
        SYMS[k] = (frozenset(t.id for t in T.topo(bool_terms(b)) if t.op == 'sym' and t is not T.PI), b)
    return SYMS[k][0]

def topo_upto(ts, n):
    """the sub terms, or something not small when there are more than n"""
    seen, st = {}, list(ts)
    while st:
        t = st.pop()
        if t.id in seen: continue
        seen[t.id] = t
        if len(seen) > n: return [T.mk('sym', ('big', ''), 'C')]
        st += [a for a in t.args if isinstance(a, Term)]
    return list(seen.values())
def np_full(w):
    return numpy.array(numpy.broadcast_to(w, (vec.N,)))
def np_real_ok(w):
    return numpy.abs(w.imag) <= 1e-9*(1e-300+numpy.abs(w)) if w.dtype.kind == 'c' else numpy.ones(vec.N, dtype=bool)

def occurs(x, t):
    return any(u is x for u in T.topo([t]))

def substitute(t, sub):
    if not sub: return t
    memo = {}
    def go(u):
        for v in T.topo([u]):
            if v.id in memo: continue
            if v.op == 'sym':
                memo[v.id] = go(sub[v.id]) if v.id in sub else v
            elif v.op in ('const', 'nonfin'): memo[v.id] = v
            else: memo[v.id] = rebuild(v, [memo[a.id] if isinstance(a, Term) else a for a in v.args])
        return memo[u.id]
    return go(t)
def rebuild(v, a):
    op = v.op
    if all(x is y for x, y in zip(a, v.args)): return v
    if op == 'add': return T.add(*a)
    if op == 'mul': return T.mul(*a)
    if op == 'inv': return T.inv(*a)
    if op == 'conj': return T.fconj(*a)
    if op == 're': return T.fre(*a)
    if op == 'im': return T.fim(*a)
    if op == 'abs': return T.fabs(*a)
    if op == 'sqrt': return T.fsqrt(*a)
    if op == 'exp': return T.fexp(*a)
    if op == 'log': return T.flog(*a)
    if op == 'angle': return T.fangle(*a)
    return T.mk(op, tuple(a), v.sort, v.sgn)

# ---------------------------------------------------------------------------
class Explorer:
    """re-executes a scenario once per feasible combination of branch outcomes"""
    def __init__(s, run, seed, maxpaths=200, deadline=None):
        s.run, s.seed, s.maxpaths, s.deadline = run, seed, maxpaths, deadline
    def explore(s, ctxfactory):
        vec.reset()
        work = [[]]
        n = 0; infeasible = 0
        results = []
        truncated = False
        while work:
            if n >= s.maxpaths: truncated = 'path limit'; break
            if s.deadline and time.time() > s.deadline: truncated = 'time limit'; break
            prefix = work.pop()
            ctx = ctxfactory()
            pr = ctx.prover
            trace = []
            def decider(b, ctx=ctx, pr=pr, trace=trace, prefix=prefix):
                if s.deadline and time.time() > s.deadline: raise Timeout()
                r = pr.decide(b)
                if r is not None: return r
                if len(trace) < len(prefix):
                    v = prefix[len(trace)]
                else:
                    v = b.op != 'eq' if b.op != 'not' else b.args[0].op == 'eq'
                    # generic branch first, the other one later
                    if not getattr(ctx, 'one', 0): work.append(trace+[not v])
                    else:
                        try: m = pr.masks(b)
                        except Unsupported: m = ()
                        if True in m: v = m[0]       # the side that is known to be inhabited
                trace.append(v)
                pr.assume(b if v else SBool('not', b))
                return v
            T._decider[0] = decider
            T._ident[0] = lambda d, pr=pr: pr.zero(d) is True
            try:
                s.run(ctx)
                ctx.finish(None)
            except Infeasible:
                infeasible += 1; continue
            except Timeout:
                ctx.undecided('time limit'); truncated = 'time limit'
            except Unsupported as e:
                ctx.undecided('unsupported: '+str(e)+' @ '+where())
            except (KeyboardInterrupt, SystemExit, MemoryError): raise
            except BaseException as e:
                ctx.finish(e)
            finally:
                T._decider[0] = None; T._ident[0] = None
                ctx.cleanup()
            n += 1
            results.append(ctx)
        return results, infeasible, truncated

def where():
    tb = sys.exc_info()[2]
    best = ''
    for f in traceback.extract_tb(tb):
        if '/src/pyRFtk/' in f.filename: best = f'{f.filename.rsplit("/",1)[1]}:{f.lineno}'
    return best or f'{f.filename.rsplit("/",1)[1]}:{f.lineno}'
