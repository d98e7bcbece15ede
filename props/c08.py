"""C08 tapered line"""
from vc.api import S
from props.c07 import laws as _laws, freq, length, Law
import inspect
LEVEL = 'other'
BOUNDS = ('profiles with up to 5 nodes (lists, pairs of lists, arrays) and arbitrary functions of w and x in every signature, up to 3 profiles at a time; '
          'node spacing as a number (unknown number of nodes: both ends and an arbitrary point), and as a fraction of the wavelength for at most 2 steps '
          '(symbolic) or any number (concrete)')
EXPLANATION = ('odeint and interp1d are replaced by their documented contracts: odeint returns, for the two-component complex linear system it is handed, '
               'the values of its fundamental matrix (arbitrary, one per node) applied to the initial values; the obligations are that the function handed to it '
               'is the telegrapher\'s equations for arbitrary V, I and x, that the nodes run from 0 to L, and that S-matrix and standing waves are those of the '
               'fundamental matrix. interp1d returns the joined line segments. On the real package results are compared with an independent Runge-Kutta '
               'integration of the same profiles.')
TRUSTED = ['scipy.integrate.odeint', 'scipy.interpolate.interp1d (linear)']
R = {'rTL': (.1, 20, 1.), 'gTL': (.1, 5, 1e-3), 'LTL': (1, 5, 1e-7), 'CTL': (.5, 2, 1e-10), 'Z0TL': (10, 90, 1.), 'vr': (.3, 1, 1.), 'OD': (.2, .4, 1.), 'ID': (.05, .15, 1.), 'epsr': (1, 4, 1.)}

def val(c, k, i): return c.pos(f'{k}{i}', R[k][0], R[k][1])*R[k][2]

def seg(c, xs, ys, x):
    """line segments through the nodes, constant beyond the ends (forks on where x is)"""
    if x <= xs[0]: return ys[0]
    for i in range(len(xs)-1):
        if x <= xs[i+1]: return ys[i]+(ys[i+1]-ys[i])*(x-xs[i])/(xs[i+1]-xs[i])
    return ys[-1]

def profile(c, k, form, L):
    """(what is given, function (w, x) it means)"""
    kind, n = form if isinstance(form, tuple) else (form, 0)
    if kind == 'num': v = val(c, k, 0); return v, lambda w, x: v
    if kind == 'one': v = val(c, k, 0); return [v], lambda w, x: v
    if kind in ('list', 'tup', 'arr', 'same'):
        vs = [val(c, k, 0 if kind == 'same' else i) for i in range(n)]
        xs = [L*i/(n-1) for i in range(n)]
        return tuple(vs) if kind == 'tup' else c.np.array(vs) if kind == 'arr' else list(vs), lambda w, x: seg(c, xs, vs, x)
    if kind in ('pair', 'short', 'long', 'parr', 'shift'):
        vs = [val(c, k, i) for i in range(n)]
        a, b = {'pair': (0, 1), 'parr': (0, 1), 'short': (.2, .7), 'long': (-.3, 1.4), 'shift': (.4, 1.6)}[kind]
        ts = [a+(b-a)*i/(n-1)*(1 if i in (0, n-1) else c.between(f't{k}{i}', .8, 1.2)) for i in range(n)]
        xs = [L*t for t in ts]
        p = [list(xs), list(vs)]
        return c.np.array(p) if kind == 'parr' else p, lambda w, x: seg(c, xs, vs, x)
    u, v, s = val(c, k, 0), val(c, k, 1), 3e8
    return {'const': (lambda: u, lambda w, x: u),
            'w': (lambda w: u+v*w/s, lambda w, x: u+v*w/s),
            'x': (lambda x: u+v*x*x, lambda w, x: u+v*x*x),
            'wx': (lambda w, x: u+v*w/s*x, lambda w, x: u+v*w/s*x),
            'xw': (lambda x, w: u+v*w/s*x, lambda w, x: u+v*w/s*x),
            'wx0': (lambda w, x=0: u+v*w/s*x, lambda w, x: u+v*w/s*x),
            'call': (Call(u, v, s), lambda w, x: u+v*w/s*x)}[kind]
class Call:
    def __init__(s, u, v, n): s.u, s.v, s.n = u, v, n
    def __call__(s, x, w): return s.u+s.v*w/s.n*x

def zy(c, P, w, x):
    """series impedance and shunt admittance per length at x"""
    g = {k: f(w, x) for k, f in P.items()}
    if 'OD' in g or 'ID' in g:
        e = (1/g.get('epsr', 1.))**.5
        eta = c.np.sqrt(c.mu0/c.e0)/(2*c.pi)
        g['Z0TL'] = e*eta*c.np.log(g['OD']/g['ID'])
    if 'epsr' in g: g['vr'] = 1/g['epsr']**.5
    if 'LTL' in g and 'CTL' in g: l, k = g['LTL'], g['CTL']
    elif 'LTL' in g: l = g['LTL']; k = l/g['Z0TL']**2
    elif 'CTL' in g: k = g['CTL']; l = k*g['Z0TL']**2
    else: v = g.get('vr', 1)*c.c0; Z = g['Z0TL']; l, k = Z/v, 1/(Z*v)
    return g.get('rTL', 0)+1j*w*l, g.get('gTL', 0)+1j*w*k

class Ode:
    """contract of odeint for a linear system in (V, I): its fundamental matrix at every node"""
    def __init__(s, c, P, L): s.c, s.P, s.L, s.at, s.calls, s.w = c, P, L, [], 0, None
    def phi(s, x):
        for y, m in s.at:
            if s.same(y, x): return m
        k = len(s.at)
        m = [[s.c.cplx(f'Phi{k}_{i}{j}', 1.) for j in range(2)] for i in range(2)]
        s.at.append((x, m)); return m
    def same(s, x, y):
        if x is y: return True
        return s.c.prover.zero(x-y) is True if s.c.symbolic else x == y
    def __call__(s, func, y0, t, args=(), **k):
        from vc import term as T
        c, s.calls = s.c, s.calls+1
        tf = k.pop('tfirst', False)
        u = [c.real(f'u{i}') for i in range(4)]
        x = t[0]+(t[-1]-t[0])*c.between('xi', 0, 1)
        d = func(x, u, *args) if tf else func(u, x, *args)
        V, I = u[0]+1j*u[1], u[2]+1j*u[3]
        z, y = zy(c, s.P, s.w, x)
        c.eq('dV/dx', d[0]+1j*d[1], z*I); c.eq('dI/dx', d[2]+1j*d[3], y*V)
        for i in range(4): c.eq('real', c.np.imag(d[i]), 0)
        c.eq('from 0', t[0], 0*s.L); c.eq('to L', t[-1], s.L)
        V, I = y0[0]+1j*y0[1], y0[2]+1j*y0[3]
        out = []
        for i in range(len(t)):
            m = [[1, 0], [0, 1]] if i == 0 else s.phi(t[i])
            v, j = m[0][0]*V+m[0][1]*I, m[1][0]*V+m[1][1]*I
            out.append([c.np.real(v), c.np.imag(v), c.np.real(j), c.np.imag(j)])
        return c.np.array(out)
    def num(s, f, x):
        """fundamental matrix by an independent integration (numbers)"""
        c, np = s.c, s.c.np
        w = 2*np.pi*f
        M = np.eye(2, dtype=complex)
        N = 4000
        h = x/N
        def A(x):
            z, y = zy(c, s.P, w, x); return np.array([[0, z], [y, 0]])
        if h == 0: return M
        a = A(0.)
        for i in range(N):
            m, b = A((i+.5)*h), A((i+1)*h)
            k1 = a@M; k2 = m@(M+h/2*k1); k3 = m@(M+h/2*k2); k4 = b@(M+h*k3)
            M = M+h/6*(k1+2*k2+2*k3+k4); a = b
        return M
    def mat(s, f, x):
        if s.c.symbolic: return s.phi(x)
        return s.num(f, x)

def setup(c, forms, L):
    given, P = {}, {}
    for k, form in forms: given[k], P[k] = profile(c, k, form, L)
    ode = Ode(c, P, L)
    c.hook('odeint', ode)
    return given, P, ode

def spacing(c, dx, L):
    return {} if dx is None else {'dx': dx} if isinstance(dx, int) else {'dx': L/dx[1]*1.01 if dx[0] == '+' else -L/dx[1]} if dx[0] in '+-' else {'dx': c.pos('dx', .05, .3)}

def line(c, forms, dx, Zr):
    L = length(c); f = freq(c); Z0 = c.pos('Zb', 5, 60); Z = c.pos('Zr', 5, 60) if Zr else Z0
    given, P, ode = setup(c, forms, L)
    ode.w = 2*c.pi*f
    if c.symbolic and (dx is None or isinstance(dx, int)):
        # one or two steps
        zz, yy = zy(c, P, ode.w, 0*L)
        c.assume(L*c.np.imag((zz*yy)**.5) <= 2*c.pi/(dx or 72))
    o = c.rf.rfTRL(L=L, Zbase=Z0, **given, **spacing(c, dx, L))
    M = o.getS(f, **({'Zbase': Z} if Zr else {}))
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    def port():
        b1, b2 = M[0, 0]*a1+M[0, 1]*a2, M[1, 0]*a1+M[1, 1]*a2
        return a1+b1, a2+b2, (a1-b1)/Z, (a2-b2)/Z
    V1, V2, I1, I2 = port()
    if c.symbolic: c.true('integrated', ode.calls > 0)
    m = ode.mat(f, L)
    c.eq('V', V2, m[0][0]*V1-m[0][1]*I1, scale=[V1, V2, m[0][1]*I1]); c.eq('I', I2, m[1][0]*V1-m[1][1]*I1, scale=[I1, I2, V1*m[1][0]])
    xs, (V, I, _) = o.VISWs(f, {'1': a1, '2': a2}, *((Z,) if Zr else ()))
    c.eq('x0', xs[0], 0*L); c.eq('xL', xs[-1], L); c.true('n', len(xs) == len(V) == len(I))
    for k in range(0, len(xs), max(1, len(xs)//3)) if not c.symbolic else range(len(xs)):
        m = ode.mat(f, xs[k]) if not (c.symbolic and k == 0) else [[1, 0], [0, 1]]
        c.eq('V(x)', V[k], m[0][0]*V1-m[0][1]*I1, scale=[V1, m[0][1]*I1]); c.eq('I(x)', I[k], m[1][0]*V1-m[1][1]*I1, scale=[I1, V1*m[1][0]])
    c.eq('V end', V[-1], V2, scale=[V1, V2]); c.eq('I end', I[-1], I2, scale=[I1, I2])
    c.raises('set', lambda: o.set(L=L*2), ValueError)

def uniform(c, form, keys, dx):
    """all values equal: the uniform line"""
    L = length(c); f = freq(c); Z0 = c.pos('Zb', 5, 60)
    given, P, ode = setup(c, [(k, form) for k in keys], L)
    ode.w = 2*c.pi*f
    el = {k: val(c, k, 0) for k in keys}
    if c.symbolic:
        law = Law(c, el)
        def exact(x):
            ch, sh, Z = law(f, x)
            return [[ch, Z*sh], [sh/Z, ch]]
        ode.phi = exact     # the equations are those of constants: odeint returns their solution
    o = c.rf.rfTRL(L=L, Zbase=Z0, dx=L/2.5, **given)
    M = o.getS(f)
    c.eq('as the uniform one', M, c.rf.rfTRL(L=L, Zbase=Z0, **el).getS(f))
    _laws(c, 'law', M, f, Z0, Law(c, el), L)

def zero(c, forms, dx):
    L = 0.; f = freq(c); Z0 = c.pos('Zb', 5, 60)
    given, P, ode = setup(c, forms, L)
    ode.w = 2*c.pi*f
    o = c.rf.rfTRL(L=L, Zbase=Z0, dx=dx, **given)
    c.eq('through', o.getS(f), c.np.array([[0, 1], [1, 0]]))

def meaning(c, key, form, where):
    """what the resolver makes of a profile: its value anywhere on (or beyond) the line"""
    L = length(c); w = c.pos('w', 1, 6)*1e8
    given, P = profile(c, key, form, L)
    t = c.mod('resolveTLparams').TLresolver(L=L, Zbase=50., **{key: given})
    x = {'in': lambda: L*c.between('xi', 0, 1), '0': lambda: 0*L, 'L': lambda: L, 'before': lambda: -L*c.pos('xi', .1, 1), 'after': lambda: L*(1+c.pos('xi', .1, 1)), 'int0': lambda: 0}[where]()
    c.eq(key, getattr(t, key)(w, x), P(w, x))
    if where == 'in' and isinstance(form, tuple) and form[0] != 'same' and c.symbolic:
        c.true('varies', t.kwset[key]['ddx'])

def several(c, n):
    """frequencies in turn, each its own equations"""
    L = length(c); Z0 = c.pos('Zb', 5, 60)
    given, P, _ = setup(c, [('LTL', 'wx'), ('CTL', ('list', 2)), ('rTL', 'x')], L)
    o = c.rf.rfTRL(L=L, Zbase=Z0, dx=L/1.5, **given)
    fs = [freq(c, f'f{k}') for k in range(n)]
    if c.symbolic:
        for i in range(n):
            for j in range(i): c.assume(fs[i] != fs[j])
    odes = {}
    def hook(func, y0, t, **k):
        # the equations of one of the frequencies
        i = len(odes)//2 % n if False else cur[0]
        e = odes.setdefault(i, Ode(c, P, L)); e.w = 2*c.pi*fs[i]
        m = e.at
        if not m:
            e.phi = lambda x, i=i: [[c.cplx(f'Q{i}_{a}{b}') for b in range(2)] for a in range(2)]
        return e(func, y0, t, **k)
    cur = [0]
    c.hook('odeint', hook)
    for i in list(range(n))+[0]:
        cur[0] = i
        M = o.getS(fs[i])
        a1, a2 = c.cplx('a1'), c.cplx('a2')
        b1, b2 = M[0, 0]*a1+M[0, 1]*a2, M[1, 0]*a1+M[1, 1]*a2
        V1, V2, I1, I2 = a1+b1, a2+b2, (a1-b1)/Z0, (a2-b2)/Z0
        m = [[c.cplx(f'Q{i}_{a}{b}') for b in range(2)] for a in range(2)] if c.symbolic else Ode(c, P, L).num(fs[i], L)
        c.eq('V', V2, m[0][0]*V1-m[0][1]*I1, scale=[V1, V2, m[0][1]*I1]); c.eq('I', I2, m[1][0]*V1-m[1][1]*I1, scale=[I1, I2, V1*m[1][0]])

FORMS = [('list', 2), ('list', 3), ('tup', 3), ('arr', 2), ('pair', 2), ('short', 2), ('short', 3), ('long', 3), ('parr', 2), ('shift', 2), 'const', 'w', 'x', 'wx', 'xw', 'wx0', 'call']
def scenarios(tier):
    q = tier == 'quick'
    L = []
    T = 'rfTRL.solveVI,TLresolver._linfunL'
    def add(n, forms, dx, Zr=False, **k): L.append(S(f'line {n} {dx} {Zr}', line, dict(forms=forms, dx=dx, Zr=Zr), target=T, conc=2, **k))
    for i, fm in enumerate(FORMS):
        add(f'Z0TL {fm}', [('Z0TL', fm)], ('?',), i % 2 == 0) if fm not in ('const', 'w') else None
        add(f'L {fm}', [('LTL', fm), ('CTL', 'x')], ('+', 1.5), i % 2 == 1)
        add(f'C {fm}', [('LTL', 'x'), ('CTL', fm)], ('-', 2.5))
        add(f'r {fm}', [('LTL', 'num'), ('CTL', 'x'), ('rTL', fm)], ('+', 3.5))
        add(f'g {fm}', [('LTL', 'x'), ('CTL', 'num'), ('gTL', fm)], ('?',))
    for dx in (None, 72, 11, ('+', 1), ('+', 4), ('-', 1.5), ('?',)):
        add('Z0 vr', [('Z0TL', ('list', 2)), ('vr', 'x')], dx, dx in (72, ('?',)))
        add('all', [('LTL', 'xw'), ('CTL', ('list', 2)), ('rTL', 'wx'), ('gTL', 'x')], dx, True, sym=not isinstance(dx, (int, type(None))))
    add('coax', [('OD', ('list', 2)), ('ID', 'num')], ('?',))
    add('coax2', [('OD', 'num'), ('ID', ('pair', 2)), ('epsr', 'num')], ('+', 1.5))
    add('coax3', [('OD', ('list', 2)), ('ID', ('list', 2)), ('epsr', 'x')], ('+', 1.5))
    add('Z0 C', [('Z0TL', ('list', 2)), ('CTL', 'num')], ('+', 1.5)); add('Z0 L', [('Z0TL', 'x'), ('LTL', 'num')], ('+', 1.5))
    if not q:
        for fm in (('list', 4), ('list', 5), ('pair', 4), ('short', 5)): add(f'Z0TL {fm}', [('Z0TL', fm)], ('?',), tl=300)
        for fa in FORMS:
            for fb in FORMS: add(f'two {fa} {fb}', [('LTL', fa), ('CTL', fb), ('gTL', 'x')], ('+', 1.5), tl=300)
    for keys in (('LTL', 'CTL'), ('LTL', 'CTL', 'rTL', 'gTL')):
        for fm in (('same', 2), ('same', 3), ('same', 5)): L.append(S(f'uniform {"+".join(keys)} {fm}', uniform, dict(form=fm, keys=keys, dx=None), target=T, conc=2))
    for fm in (('list', 2), ('list', 3), ('pair', 2), 'x', 'wx'):
        for dx in (72, .05, -.05): L.append(S(f'zero {fm} {dx}', zero, dict(forms=[('Z0TL', fm)], dx=dx), sym=isinstance(fm, str), target=T, conc=1))
    for key in ('Z0TL', 'LTL', 'vr', 'OD') if not q else ('Z0TL', 'LTL'):
        for fm in FORMS+['num', 'one', ('same', 3), ('list', 5), ('pair', 4)]:
            for where in ('in', '0', 'L', 'before', 'after', 'int0'): L.append(S(f'meaning {key} {fm} {where}', meaning, dict(key=key, form=fm, where=where), target='TLresolver._linfunL', conc=1))
    for n in (2, 3): L.append(S(f'several {n}', several, dict(n=n), target=T, conc=1))
    return L
