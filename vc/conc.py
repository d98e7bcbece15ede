"""Concrete execution of contracts on the real package (runs under /opt/venv)."""
import sys, os, json, time, math, cmath, traceback, importlib, hashlib, signal, io, contextlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
REPO = os.environ.get('PYRFTK_REPO', '/repo')
sys.dont_write_bytecode = True

from vc.api import Base, flatten, rng_for, S, Violated

class Skip(BaseException): pass

class ConcCtx(Base):
    symbolic = False
    def __init__(self, name, seed, sample, override=None):
        import numpy, scipy.constants as sc
        import pyRFtk
        self.np, self.rf = numpy, pyRFtk
        self.pi = math.pi
        self.name, self.seed, self.sample = name, seed, sample
        self.override = override or {}
        self.values = {}
        self.n = 0
        self.fail = []
        self.c0, self.mu0, self.e0 = sc.speed_of_light, sc.mu_0, sc.epsilon_0
        self.cleanups = []
    def mod(self, n): return importlib.import_module('pyRFtk.'+n)
    def _draw(self, name, f):
        if name in self.values: return self.values[name]
        if name in self.override:
            v = self.override[name]
            v = complex(*v) if isinstance(v, list) else v
        else:
            v = f(rng_for(self.seed, self.name, self.sample, name))
        self.values[name] = v
        return v
    def real(self, name, pos=False, nonneg=False, lo=-2., hi=2.):
        if pos or nonneg: lo = max(lo, .2 if pos and lo <= 0 else lo) if pos else max(lo, 0)
        return self._draw(name, lambda r: r.uniform(lo, hi))
    def cplx(self, name, scale=1.):
        return self._draw(name, lambda r: complex(r.uniform(-scale, scale), r.uniform(-scale, scale)))
    def between(self, name, lo, hi):
        e = 1e-3*(hi-lo)
        v = self._draw(name, lambda r: r.uniform(lo+e, hi-e))
        if not lo < v < hi: raise Skip()
        return v
    def near(self, name, v, others, plain=None):
        """sometimes close to, but different from, another number of its kind; sometimes the rounded one"""
        if self.override and 'near_'+name not in self.override: return v
        r = self._draw('near_'+name, lambda r: r.uniform(0, 1))
        if r < .15 and plain is not None: return plain
        if r < .4 and others:
            e = 10**-(2+(r*97.31)%1*3.3)
            return others[int(r*1e4)%len(others)]*(1+e if r*1e3%1 < .5 else 1-e)
        return v
    def assume(self, b):
        if not b: raise Skip()
    def printing(self): return contextlib.nullcontext()
    def parse(self, t): return float(t)
    def positive_only(self): pass
    def positive(self, *ts): pass
    def sqrt(self, x): return self.np.sqrt(x)
    def _fail(self, label, msg): self.fail.append((label, msg))
    def eq(self, label, a, b, tol=1e-6, floor=1e-12, scale=()):
        self.n += 1
        (sa, la), (sb, lb) = flatten(a), flatten(b)
        if sa != sb: return self._fail(label, f'structure {str(sa)[:200]} instead of {str(sb)[:200]}')
        sc = max([abs(complex(t)) for t in scale], default=0.)
        for x, y in zip(la, lb):
            for t in (x, y):
                try: 
                    m = abs(complex(t))
                    if math.isfinite(m): sc = max(sc, m)
                except Exception: pass
        for i, (x, y) in enumerate(zip(la, lb)):
            try: u, v = complex(x), complex(y)
            except Exception:
                if x != y: return self._fail(label, f'{x!r} instead of {y!r}')
                continue
            if u == v or (cmath.isnan(u) and cmath.isnan(v)): continue
            if not abs(u-v) <= (tol or 1e-6)*sc + floor:
                return self._fail(label, f'element {i}: {x!r} instead of {y!r}')
    def true(self, label, b):
        self.n += 1
        if not bool(b): self._fail(label, 'false')
    def le(self, label, a, b):
        self.n += 1
        if not a <= b+1e-9*(abs(a)+abs(b)): self._fail(label, f'{a!r} > {b!r}')
    def raises(self, label, f, *types):
        self.n += 1
        types = types or (Exception,)
        try: f()
        except types: return
        except Exception as e:
            return self._fail(label, f'raised {type(e).__name__}: {e} instead of {[t.__name__ for t in types]}')
        self._fail(label, 'no exception')
    def call(self, f):
        try: return None, f()
        except Exception as e: return type(e).__name__, None
    def contract(self, *a): pass
    def hook(self, *a): pass
    def cleanup(self):
        for f in self.cleanups:
            try: f()
            except Exception: pass
        try:
            import pyRFtk.config as cf, logging
            cf.setLogLevel(logging.CRITICAL)
        except Exception: pass

def where():
    best = ''
    for f in traceback.extract_tb(sys.exc_info()[2]):
        if '/src/pyRFtk/' in f.filename: best = f'{f.filename.rsplit("/",1)[1]}:{f.lineno}'
    return best

class TL(BaseException): pass
def _alarm(*a): raise TL()

def run_one(sc, seed, sample, override=None, tl=30):
    """(status, detail, n, values): status ok / fail / skip / timeout"""
    import numpy as np, warnings
    warnings.simplefilter('ignore'); np.seterr(all='ignore')
    c = ConcCtx(sc.name, seed, sample, override)
    signal.signal(signal.SIGALRM, _alarm); signal.setitimer(signal.ITIMER_REAL, tl)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(out):
            sc.fn(c, **sc.kw)
    except Skip: return 'skip', None, c.n, c.values
    except TL: return 'timeout', None, c.n, c.values
    except KeyboardInterrupt: raise
    except BaseException as e:
        c._fail('no exception', f'{type(e).__name__}: {e} @ {where()}')
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        c.cleanup()
    if c.fail: return 'fail', c.fail, c.n, c.values
    return 'ok', None, c.n, c.values

def import_repo():
    sys.path.insert(0, os.path.join(REPO, 'src'))
    import pyRFtk
    p = os.path.realpath(pyRFtk.__file__)
    assert p.startswith(os.path.realpath(REPO)), p

def jv(v):
    if isinstance(v, complex): return [v.real, v.imag]
    return float(v)

def main():
    job = json.load(sys.stdin)
    with contextlib.redirect_stdout(io.StringIO()):
        import_repo()
    m = importlib.import_module('props.'+job['prop'].lower())
    scs = {s.name: s for s in m.scenarios(job['tier'])}
    res = []
    t0 = time.time(); stuck = False
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30))
    for name, sample, override in job['runs']:
        if time.time()-t0 > job.get('budget', 1e9):
            res.append((name, sample, 'budget', None, 0, None)); continue
        sc = scs[name]; t1 = time.time()
        st, d, n, vals = run_one(sc, job['seed'], sample, override)
        if st == 'timeout' and not stuck:
            # contracts take a fraction of a second: one that does not end, twice, has failed
            st, d, n, vals = run_one(sc, job['seed'], sample, override, 100)
            if st == 'timeout': stuck, st, d = True, 'fail', [('ends', 'no result within 100 s')]
        if os.environ.get('VC_TIMES'): sys.stderr.write(f'{time.time()-t1:.2f} {name}\n')
        res.append((name, sample, st, d, n, {k: jv(v) for k, v in vals.items()} if st == 'fail' else None))
    sys.stdout.write('\n@@RESULT@@'+json.dumps(res)+'\n'); sys.stdout.flush()
    os._exit(0)

if __name__ == '__main__':
    main()
