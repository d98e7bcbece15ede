import copy, math, time, random, sys, os
import numpy as _np
from . import term as T, shim, explore
from .term import Term, SBool, Unsupported, lift
from .api import Base, flatten, rng_for
from .explore import Prover, Explorer, where
import mpmath as mp

class SymCtx(Base):
    symbolic = True
    np = shim.NP
    pi = T.PI
    def __init__(self, loader, seed, name):
        self.loader, self.seed, self.name = loader, seed, name
        self.rf = loader.mods['pyRFtk']
        self.ranges = {}
        self.prover = Prover(f'{name}/{seed}', self.ranges)
        self.obl = []            # (label, status, detail)
        self._und = []
        self.patched = []
        self.c0, self.mu0, self.e0 = shim.C0, shim.MU0, shim.E0
        self.labels = {}
        self.cleanups = []
        shim.TOKENS.clear(); shim.GENERIC.clear(); shim.WEIGHTS.clear()
        shim.ON_GENERIC[0] = self._generic
        self.assumed = []
    def mod(self, n): return self.loader.mods['pyRFtk.'+n]
    def _generic(self, t):
        """an arbitrary point: a fraction of the interval"""
        self.ranges[t.args[0]] = lambda r: mp.mpf(r.uniform(.05, .95))
        self.prover.assume(T.cmp('lt', t, T.ONE))
    # -- inputs
    def real(self, name, pos=False, nonneg=False, lo=-2., hi=2.):
        if pos or nonneg: lo = max(lo, .2 if pos and lo <= 0 else lo) if pos else max(lo, 0)
        if name not in self.ranges:
            self.ranges[name] = lambda r, lo=lo, hi=hi: mp.mpf(r.uniform(lo, hi))
        return T.sym(name, 'R', '+' if pos else '0+' if nonneg else '')
    def cplx(self, name, scale=1.):
        if name not in self.ranges:
            self.ranges[name] = lambda r, s=scale: mp.mpc(r.uniform(-s, s), r.uniform(-s, s))
        return T.sym(name, 'C', '')
    def between(self, name, lo, hi):
        """a real strictly between lo and hi (numbers or expressions)"""
        if isinstance(lo, (int, float)) and isinstance(hi, (int, float)):
            x = self.real(name, pos=lo >= 0, lo=lo+1e-3*(hi-lo), hi=hi-1e-3*(hi-lo))
        else: x = self.real(name)
        self.assume(T.cmp('lt', lo, x)); self.assume(T.cmp('lt', x, hi))
        return x
    def near(self, name, v, others, plain=None): return v
    def assume(self, b):
        if isinstance(b, (bool, _np.bool_)):
            if not b: raise explore.Infeasible()
            return
        self.assumed.append(b)
        self.prover.assume(b)
    def choice(self, name, options):
        raise Unsupported('choice')
    def positive(self, *ts):
        """these terms are positive (used to take the right square roots in identity tests)"""
        for t in ts:
            t = lift(t)
            if not T.isconst(t) and not any(t is u for u in self.prover.squares): self.prover.squares.append(t); self.prover.gfs = []; self.prover.zc = {}
    def printing(self):
        """numbers are printed exactly inside"""
        import contextlib
        @contextlib.contextmanager
        def f():
            o = T.PRINTING[0]; T.PRINTING[0] = 'token'
            try: yield
            finally: T.PRINTING[0] = o
        return f()
    def parse(self, t): return shim.FloatShim(t)
    def positive_only(self):
        """drop the hints given so far"""
        if self.prover.squares: self.prover.squares = []; self.prover.gfs = []; self.prover.zc = {}
    def sqrt(self, x): return shim.NP.sqrt(x)
    # -- obligations
    def _add(self, label, status, detail=None):
        k = self.labels.get(label, 0); self.labels[label] = k+1
        self.obl.append((label if not k else f'{label}#{k}', status, detail))
    def undecided(self, why): self._add('path', 'undecided', why)
    def eq(self, label, a, b, tol=None, floor=None, scale=()):
        (sa, la), (sb, lb) = flatten(a), flatten(b)
        if sa != sb:
            if norm(sa) != norm(sb):
                self._refute(label, f'structure {short(sa)} instead of {short(sb)}'); return
        worst = 'syntactic'
        for x, y in zip(la, lb):
            st, d = self.eq1(x, y)
            if st == 'refuted':
                self._refute(label, f'{T.show(lift(x))[:300]} is not {T.show(lift(y))[:300]}', d); return
            if RANK[st] > RANK[worst]: worst = st
        self._add(label, worst, None if worst not in ('undecided',) else 'no point found on this path (it may be infeasible)')
    def eq1(self, x, y):
        if isinstance(x, (str, type(None))) or isinstance(y, (str, type(None))):
            return ('syntactic', None) if x == y else ('refuted', None)
        if isinstance(x, (bool, _np.bool_)) and isinstance(y, (bool, _np.bool_)):
            return ('syntactic', None) if x == y else ('refuted', None)
        X, Y = lift(x), lift(y)
        if X is None or Y is None: 
            return ('syntactic', None) if x is y or x == y else ('refuted', None)
        if X is Y: return 'syntactic', None
        if X.op == 'nonfin' or Y.op == 'nonfin': return 'refuted', None
        d = T.add(X, T.neg(Y))
        if d is T.ZERO: return 'syntactic', None
        if T.isconst(d):
            # decimals of physical constants against their definitions
            m = max(abs(complex(float(X.args[0]), float(X.args[1]))) if T.isconst(X) else 1, 1e-300)
            if abs(complex(float(d.args[0]), float(d.args[1]))) <= 1e-12*m: return 'syntactic', None
            return 'refuted', None
        if X.sort == Y.sort == 'R' and X.sgn and Y.sgn and (has_abs(X) or has_abs(Y)):
            try:
                if self.prover.zero(T.add(square(X), T.neg(square(Y)))) is True: return 'gf', None      # non negative numbers with equal squares
            except Unsupported: pass
        try: z = self.prover.zero(d)
        except Unsupported as e: z = None
        if z is True: return 'gf', None
        if z is False and not self.prover.unsolved:
            # make sure with numbers on the path
            p = self.numdiff(X, Y)
            if p is True: return 'numeric', None
            return 'refuted', p
        p = self.numdiff(X, Y)
        if p is True: return 'numeric', None
        if p is None: return 'undecided', None
        return 'refuted', p
    def numdiff(self, X, Y):
        """a point of the path where X and Y differ; True: they agree at all points tried; None: no point"""
        pts = self.prover.pts()[:6]
        seen = 0
        for p in pts:
            try: x, y = p.ev(X), p.ev(Y)
            except (explore.Dom, Unsupported, OverflowError, ValueError): continue
            seen += 1
            if abs(x-y) > mp.mpf(10)**-25*(abs(x)+abs(y)+mp.mpf(10)**-10): return p
        return True if seen >= 3 else None
    def _refute(self, label, msg, point=None):
        if point is None:
            ps = self.prover.pts()
            point = ps[0] if ps else None
        env = None
        if point is not None:
            env = {k: cv(v) for k, v in point.env.items() if k in self.ranges}
        else:
            self._add(label, 'undecided', 'no point found on this path (it may be infeasible): '+msg); return
        self._add(label, 'refuted', (msg, env))
    def true(self, label, b):
        if isinstance(b, (bool, _np.bool_)):
            if b: self._add(label, 'syntactic')
            else: self._refute(label, 'false')
            return
        if not isinstance(b, SBool):
            return self.true(label, bool(b))
        if b.op == 'eq':
            return self.eq(label, b.args[0], b.args[1])
        for p in self.prover.pts():
            if self.prover.holds(b, p) is False:
                return self._refute(label, 'not '+str(b)[:300], p)
        r = self.prover.z3([SBool('not', b)], 4000)
        if r == 'unsat': return self._add(label, 'z3')
        self._add(label, 'numeric' if self.prover.pts() else 'undecided', 'z3 '+r)
    def le(self, label, a, b): return self.true(label, T.cmp('le', a, b))
    def raises(self, label, f, *types):
        types = types or (Exception,)
        try: f()
        except Unsupported: raise
        except types as e:
            self._add(label, 'syntactic'); return
        except Exception as e:
            self._refute(label, f'raised {type(e).__name__} instead of {[t.__name__ for t in types]}'); return
        self._refute(label, f'no exception')
    def call(self, f):
        """(exception type or None, result)"""
        try: return None, f()
        except Unsupported: raise
        except Exception as e: return type(e).__name__, None
    def finish(self, exc):
        if exc is None: return
        self._refute('no exception', f'{type(exc).__name__}: {exc} @ {where()}')
    # -- modular contracts (symbolic runs only)
    def contract(self, module, name, spec):
        """replace module.name by its contract; silently the real body if the name is gone"""
        m = self.loader.mods.get('pyRFtk.'+module) or self.loader.mods.get(module)
        if m is not None and hasattr(m, name):
            self.patched.append((m, name, getattr(m, name))); setattr(m, name, spec)
    def hook(self, name, f):
        self.patched.append((shim.HOOKS, name, shim.HOOKS[name])); shim.HOOKS[name] = f
    def cleanup(self):
        for m, n, o in reversed(self.patched):
            if isinstance(m, dict): m[n] = o
            else: setattr(m, n, o)
        self.patched = []
        for f in self.cleanups:
            try: f()
            except Exception: pass
        self.cleanups = []

def has_abs(t): return any(u.op == 'abs' for u in T.topo([t])[-6:])
def square(t):
    if t.op == 'abs': return T.mul(t.args[0], T.fconj(t.args[0]))
    if t.op == 'mul': return T.mul(square(t.args[0]), square(t.args[1]))
    if t.op == 'inv': return T.inv(square(t.args[0]))
    return T.mul(t, t)

RANK = {'syntactic': 0, 'gf': 1, 'z3': 2, 'numeric': 3, 'undecided': 4}
def norm(sk):
    return sk
def short(x): return str(x)[:120]
def cv(v):
    if isinstance(v, mp.mpc): return [float(v.real), float(v.imag)]
    return float(v)
