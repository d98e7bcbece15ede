"""What a contract (scenario) sees, in both executions of it:
 - symbolic: repo code run on Terms, obligations discharged by the prover
 - concrete: the real package under the real numpy, on sampled / given values."""
import hashlib, random, os

class S:
    """one contract instance: fn(c, **kw)"""
    def __init__(self, name, fn, kw=None, sym=True, conc=4, target='', group='', maxpaths=256, tl=60, bounded=True, note='', soft=False):
        self.name, self.fn, self.kw = name, fn, kw or {}
        self.sym, self.conc, self.target, self.maxpaths, self.tl = sym, conc, target, maxpaths, tl
        self.bounded, self.note, self.soft = bounded, note, soft

class Violated(Exception): pass

class Base:
    symbolic = False
    # -- helpers common to both
    def cmat(self, name, n, m=None):
        m = n if m is None else m
        return self.np.array([[self.cplx(f'{name}{i}_{j}') for j in range(m)] for i in range(n)], dtype=complex)
    def cvec(self, name, n): return self.np.array([self.cplx(f'{name}{i}') for i in range(n)], dtype=complex)
    def eye(self, n): return self.np.eye(n)
    def inv(self, A): return self.np.linalg.inv(A)
    def onepath(self):
        """conditions inside are not explored both ways (only the inputs of the path taken are covered)"""
        import contextlib
        @contextlib.contextmanager
        def f():
            self.one = getattr(self, 'one', 0)+1
            try: yield
            finally: self.one -= 1
        return f()
    def pos(self, name, lo=.2, hi=5.): return self.real(name, pos=True, lo=lo, hi=hi)

def nest(sh):
    return ('s',) if not sh else ('l', (nest(sh[1:]),)*sh[0])

def flatten(x):
    """structure -> (skeleton, leaves)"""
    if hasattr(x, 'shape') and getattr(x, 'ndim', 0) > 0:
        return nest(tuple(x.shape)), list(x.flat)
    if isinstance(x, (list, tuple)):
        sk, lv = [], []
        for y in x:
            a, b = flatten(y); sk.append(a); lv += b
        return ('l', tuple(sk)), lv
    if isinstance(x, dict):
        sk, lv = [], []
        for k in sorted(x, key=str):
            a, b = flatten(x[k]); sk.append((str(k), a)); lv += b
        return ('d', tuple(sk)), lv
    if isinstance(x, (str, bytes)) or x is None or isinstance(x, type): return ('v', x), []
    return ('s',), [x]

def rng_for(seed, *k):
    return random.Random(hashlib.sha256(repr((seed,)+k).encode()).digest())
