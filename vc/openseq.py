"""Sequences of unknown length: a function that walks over one is executed from its current source with every loop over a set of indices cut
by an invariant (body for one arbitrary element from an arbitrary state, and the state after the loop)."""
import ast, sys
from . import term as T, shim
from .term import Term, SBool, Unsupported, lift

class Ix:
    """an index: base ('0' start, 'n' length, else arbitrary) + offset"""
    def __init__(s, base, off=0): s.base, s.off = base, off
    def __add__(s, k):
        if not isinstance(k, int): raise Unsupported('index arithmetic')
        return Ix(s.base, s.off+k)
    __radd__ = __add__
    def __sub__(s, k): return s+(-k)
    def _no(s, *a): raise Unsupported('comparison of an open index')
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __bool__ = __index__ = __int__ = __mul__ = _no
    __hash__ = None

class Seq:
    """el(Ix) for the indices 0 .. N+d-1"""
    __array_priority__ = 1e6
    __array_ufunc__ = None
    def __init__(s, el, d=0): s.el, s.d = el, d
    def __getitem__(s, i):
        if isinstance(i, slice):
            if i.step not in (None, 1): raise Unsupported('step of an open sequence')
            a, b = i.start, i.stop
            if isinstance(a, Ix) and isinstance(b, Ix) and a.base == b.base:
                return [s[a+k] for k in range(max(b.off-a.off, 0))]
            a = a or 0
            if isinstance(a, int) and a >= 0 and (b is None or isinstance(b, int) and b < 0):
                return Seq(lambda j: s.el(j+a), s.d-a+(b or 0))
            raise Unsupported('slice of an open sequence')
        if isinstance(i, Ix): return s.el(i)
        if isinstance(i, int): return s.el(Ix('0', i) if i >= 0 else Ix('n', s.d+i))
        raise Unsupported('index of an open sequence')
    def __iter__(s): raise Unsupported('loop over an open sequence')
    def __len__(s): raise Unsupported('length of an open sequence')
    def __bool__(s): raise Unsupported('truth of an open sequence')
    def _b(f):
        def g(s, o):
            if isinstance(o, Seq):
                if o.d != s.d: raise Unsupported('shapes')
                return Seq(lambda j: f(s.el(j), o.el(j)), s.d)
            return Seq(lambda j: f(s.el(j), o), s.d)
        return g
    __add__ = _b(lambda a, b: a+b); __sub__ = _b(lambda a, b: a-b); __mul__ = _b(lambda a, b: a*b); __truediv__ = _b(lambda a, b: a/b)
    __radd__ = _b(lambda a, b: b+a); __rsub__ = _b(lambda a, b: b-a); __rmul__ = _b(lambda a, b: b*a)
    __lt__ = _b(lambda a, b: a < b); __le__ = _b(lambda a, b: a <= b); __gt__ = _b(lambda a, b: a > b); __ge__ = _b(lambda a, b: a >= b)
    __eq__ = _b(lambda a, b: a == b); __ne__ = _b(lambda a, b: a != b)
    __and__ = _b(lambda a, b: bool(a) and bool(b)); __or__ = _b(lambda a, b: bool(a) or bool(b))
    def __invert__(s): return Seq(lambda j: not bool(s.el(j)), s.d)
    def __neg__(s): return Seq(lambda j: -s.el(j), s.d)
    __hash__ = None

class IdxSet:
    """{i+sh : 0 <= i < N+d, pred(i)} in ascending order"""
    def __init__(s, pred, d, sh=0): s.pred, s.d, s.sh = pred, d, sh
    def tolist(s): return s
    def __add__(s, k): return IdxSet(s.pred, s.d, s.sh+k)
    __radd__ = __add__
    def __sub__(s, k): return s+(-k)
    def __iter__(s): raise Unsupported('uncut loop over an open set')
    def __len__(s): raise Unsupported('size of an open set')

class NP:
    def __getattr__(s, n): return getattr(shim.NP, n)
    def diff(s, x, *a, **k):
        if not isinstance(x, Seq): return shim.NP.diff(x, *a, **k)
        n = k.get('n', a[0] if a else 1)
        for _ in range(n): x = x[1:]-x[:-1]
        return x
    def sign(s, x): return Seq(lambda j: shim.NP.sign(x.el(j)), x.d) if isinstance(x, Seq) else shim.NP.sign(x)
    def asarray(s, x, *a, **k): return x if isinstance(x, Seq) else shim.NP.asarray(x, *a, **k)
    def array(s, x, *a, **k): return x if isinstance(x, Seq) else shim.NP.array(x, *a, **k)
    def where(s, b, *a): return (IdxSet(b.el, b.d),) if isinstance(b, Seq) and not a else shim.NP.where(b, *a)
    def nonzero(s, b): return (IdxSet(b.el, b.d),) if isinstance(b, Seq) else shim.NP.nonzero(b)
    def flatnonzero(s, b): return IdxSet(b.el, b.d) if isinstance(b, Seq) else shim.NP.flatnonzero(b)
    def argwhere(s, b): raise Unsupported('argwhere') if isinstance(b, Seq) else shim.NP.argwhere(b)

class Opaque:
    """a local of unknown value"""
    def append(s, x): pass
    def _no(s, *a, **k): raise Unsupported('value carried by a loop that the invariant does not mention')
    __iter__ = __len__ = __bool__ = __getitem__ = __add__ = __lt__ = __le__ = __gt__ = __ge__ = __sub__ = __mul__ = __call__ = __eq__ = _no
    __hash__ = None
    def __getattr__(s, n): s._no()

class EndPath(BaseException): pass

class Cut(ast.NodeTransformer):
    """for T in E: B   ->   for T in __open(E): v.. = __havoc(locals(), names); B      and   v.. = __exit(locals(), names)"""
    def __init__(s): s.n = 0; s.loops = 0
    def visit_For(s, n):
        s.generic_visit(n)
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, (ast.Break, ast.Return, ast.Yield)): return n        # not cut: unsupported if the loop is over an open set
        if n.orelse: return n
        tgt = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        ch = set()
        for b in n.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)): ch.add(x.id)
                if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name): ch.add(x.value.id)
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name): ch.add(x.value.id)
        names = sorted((ch & s.local)-tgt)
        s.n += 1; s.loops += 1
        lst = ', '.join(repr(v) for v in names)
        n.iter = ast.Call(ast.Name('__open', ast.Load()), [n.iter, ast.Constant(s.n)], [])
        if names:
            tup = ', '.join(names)+','
            n.body = ast.parse(f'{tup} = __havoc({s.n}, locals(), [{lst}])').body+n.body
            return [n]+ast.parse(f'{tup} = __exit({s.n}, locals(), [{lst}])').body
        return n

def cut(c, module, fname, spec):
    """the function, cut; spec(kind, ...) is the invariant"""
    m = c.mod(module)
    src = open(m.__file__).read()
    tree = ast.parse(src)
    fd = [x for x in tree.body if isinstance(x, ast.FunctionDef) and x.name == fname]
    if len(fd) != 1: raise Unsupported('function not found')
    fd = fd[0]
    t = Cut()
    t.local = {x.id for x in ast.walk(fd) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    fd.decorator_list = []
    fd.body = [y for x in fd.body for y in (lambda r: r if isinstance(r, list) else [r])(t.visit(x))]
    mod = ast.fix_missing_locations(ast.Module([fd], []))
    g = dict(m.__dict__); g['np'] = NP()
    for k, v in list(g.items()):
        if v is shim.NP: g[k] = g['np']
    loops = {}
    def pairs(L, names): return [v for v in names if isinstance(L.get(v), (list, tuple)) and len(L[v]) == 2]
    def open_(E, k):
        loops[k] = None
        if not isinstance(E, IdxSet): return E
        L = sys._getframe(1).f_locals
        loops[k] = E
        def gen():
            j = Ix('j')
            if not bool(E.pred(j)): c.assume(False)
            yield j+E.sh
            spec('step', E, sys._getframe(1).f_locals)
            raise EndPath()
        # body or exit
        spec('entry', E, L)
        if spec('choose', E, L): return gen()
        return ()
    def state(k, L, names, exit):
        if loops.get(k) is None: return [L.get(v) for v in names] if not any(v not in L for v in names) else [L.get(v) for v in names]
        P = [v for v in names if isinstance(L.get(v), (list, tuple)) and len(L[v]) == 2 and all(isinstance(x, Term) for x in L[v])]
        return [spec('havoc', v, exit) if v in P else Opaque() for v in names]
    g['__open'] = open_
    g['__havoc'] = lambda k, L, names: state(k, L, names, False)
    g['__exit'] = lambda k, L, names: state(k, L, names, True)
    exec(compile(mod, m.__file__, 'exec'), g)
    return g[fname], t.loops
