"""C07 uniform line"""
from vc.api import S
import itertools
LEVEL = 'other'
BOUNDS = ('all combinations of present and absent losses; every way of giving the node spacing (with an unknown number of nodes: both ends and an arbitrary '
          'point between; with a given number, up to 5, all of them); frequency lists up to 4; chains of 2 and 3 lines')
EXPLANATION = ('rfTRL is executed symbolically with symbolic length, frequency, line parameters, reference impedances and incident waves; the exact solution '
               'cosh/sinh of the telegrapher\'s equations is stated over the waves at the two ports and discharged as identities of rational functions of '
               'exp(gamma x), sqrt(zy) and the inputs, for both ends and an arbitrary point of the line. S_from_VI is discharged separately for an arbitrary '
               'transfer matrix.')
TLP = {'rTL': (.1, 20, 1.), 'gTL': (.1, 5, 1e-3), 'LTL': (1, 5, 1e-7), 'CTL': (.5, 2, 1e-10)}
SUB = [('LTL', 'CTL'), ('rTL', 'LTL', 'CTL'), ('gTL', 'LTL', 'CTL'), ('rTL', 'gTL', 'LTL', 'CTL')]

def par(c, sub, tag=''):
    return {k: c.pos(k+tag, TLP[k][0], TLP[k][1])*TLP[k][2] for k in sub}
def forms(c, el, how):
    """the same constants in every documented form"""
    if how == 'num': return dict(el)
    r = {}
    for i, (k, v) in enumerate(el.items()):
        h = ('list', 'w', 'arr', 'num')[i % 4] if how == 'mix' else how
        r[k] = v if h == 'num' else [v] if h == 'list' else c.np.array([v]) if h == 'arr' else (lambda w, v=v: v)
    return r

class Law:
    def __init__(s, c, el): s.c, s.el = c, el
    def zy(s, f):
        w = 2*s.c.pi*f
        return s.el.get('rTL', 0)+1j*w*s.el['LTL'], s.el.get('gTL', 0)+1j*w*s.el['CTL']
    def __call__(s, f, x):
        """cosh, sinh, characteristic impedance"""
        z, y = s.zy(f)
        g = (z*y)**.5
        e = s.c.np.exp(g*x)
        return (e+1/e)/2, (e-1/e)/2, z/g

def freq(c, k='f'): return c.pos(k, .3, 1.)*1e8
def length(c, k='L'): return c.pos(k, .2, 2.)

def laws(c, label, M, f, Z, law, L):
    """arbitrary incident waves at Z: the port voltages and currents satisfy the line's equations"""
    c.eq(label+' shape', c.np.shape(M), (2, 2))
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    b1, b2 = M[0, 0]*a1+M[0, 1]*a2, M[1, 0]*a1+M[1, 1]*a2
    V1, V2, I1, I2 = a1+b1, a2+b2, (a1-b1)/Z, (a2-b2)/Z
    ch, sh, Zl = law(f, L)
    c.eq(label+' V', V2, ch*V1-Zl*sh*I1, scale=[V1, V2, ch*V1])
    c.eq(label+' I', I2, sh/Zl*V1-ch*I1, scale=[I1, I2, ch*I1])

def smat(c, sub, how, Zr, dx=None):
    el = par(c, sub); law = Law(c, el); L = length(c); f = freq(c)
    Z0 = c.pos('Zb', 5, 60)
    kw = {} if dx is None else {'dx': dx} if not callable(dx) else {'dx': dx(L)}
    o = c.rf.rfTRL(L=L, Zbase=Z0, **forms(c, el, how), **kw)
    if Zr: Z = c.pos('Zr', 5, 60); M = o.getS(f, Zbase=Z)
    else: Z = Z0; M = o.getS(f)
    laws(c, 'S', M, f, Z, law, L)
    c.eq('reciprocal', M[0, 1], M[1, 0]); c.eq('symmetric', M[0, 0], M[1, 1])
    c.true('len', len(o) == 2); c.eq('ports', list(o.ports), ['1', '2'])
    if sub == SUB[0]:
        H = c.np.conj(M).T @ M
        c.eq('lossless', H, c.np.eye(2))

def defaults(c):
    """no parameters at all: vacuum line of the base impedance; base impedance 50 Ohm; length 0"""
    f = freq(c); L = length(c); Z0 = c.pos('Zb', 5, 60)
    v = {'LTL': Z0/c.c0, 'CTL': 1/(Z0*c.c0)}
    laws(c, 'vacuum', c.rf.rfTRL(L=L, Zbase=Z0).getS(f), f, Z0, Law(c, v), L)
    v = {'LTL': 50./c.c0, 'CTL': 1/(50.*c.c0)}
    laws(c, '50 Ohm', c.rf.rfTRL(L=L).getS(f), f, 50., Law(c, v), L)
    Zl = c.pos('Zl', 5, 60)
    v = {'LTL': Zl/c.c0, 'CTL': 1/(Zl*c.c0)}
    laws(c, 'Z0TL', c.rf.rfTRL(L=L, Z0TL=Zl, Zbase=Z0).getS(f), f, Z0, Law(c, v), L)
    c.eq('no length', c.rf.rfTRL(Z0TL=Zl, Zbase=Z0).getS(f), c.np.array([[0, 1], [1, 0]]))

def zero(c, sub, dx, Zr, how):
    el = par(c, sub); f = freq(c); Z0 = c.pos('Zb', 5, 60)
    T = c.np.array([[0, 1], [1, 0]])
    z = 0. if how == 'float' else 0
    if dx < 0: c.assume(length(c) < 3)
    if how == 'set':
        o = c.rf.rfTRL(L=length(c), Zbase=Z0, dx=dx, **el); o.getS(f); o.set(L=0.)
    elif how == 'params': o = c.rf.rfTRL(L=length(c), Zbase=Z0, dx=dx, **el)
    else: o = c.rf.rfTRL(L=z, Zbase=Z0, dx=dx, **el)
    p = {'params': {'L': 0.}} if how == 'params' else {}
    c.eq('through', o.getS(f, **({'Zbase': c.pos('Zr', 5, 60)} if Zr else {}), **p), T)
    # and its ends see the same voltage and current
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    xs, (V, I, E) = o.VISWs(f, {'1': a1, '2': a2})
    for k in range(len(xs)):
        c.eq('V', V[k], a1+a2); c.eq('I', I[k], -(a1-a2)/Z0); c.eq('x', xs[k], 0*Z0)

def anyL(c, sub):
    """length >= 0 left open"""
    el = par(c, sub); L = c.real('L', nonneg=True, lo=0, hi=2); f = freq(c); Z0 = c.pos('Zb', 5, 60)
    M = c.rf.rfTRL(L=L, Zbase=Z0, **el).getS(f)
    laws(c, 'L>=0', M, f, Z0, Law(c, el), L)

def sw(c, sub, dx, Zr, ports):
    """standing waves against the waves at the ports"""
    el = par(c, sub); law = Law(c, el); L = length(c); f = freq(c); Z0 = c.pos('Zb', 5, 60)
    n = dx if dx is None or isinstance(dx, int) else None
    d = {} if dx is None else {'dx': dx} if isinstance(dx, int) else {'dx': (L/(dx[1]-.5) if dx[0] == '+' else -L/(dx[1]-1.5))}
    o = c.rf.rfTRL(L=L, Zbase=Z0, **el, **d, **({'ports': list(ports)} if ports else {}))
    p1, p2 = ports or ('1', '2')
    Z = c.pos('Zr', 5, 60) if Zr else Z0
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    E = {p2: a2, p1: a1}
    xs, (V, I, E2) = o.VISWs(f, dict(E), *((Z,) if Zr else ()))
    M = o.getS(f, Zbase=Z)
    laws(c, 'S', M, f, Z, law, L)
    b1, b2 = M[0, 0]*a1+M[0, 1]*a2, M[1, 0]*a1+M[1, 1]*a2
    V1, V2, I1, I2 = a1+b1, a2+b2, (a1-b1)/Z, (a2-b2)/Z
    c.eq('start', xs[0], 0*L); c.eq('end', xs[-1], L)
    c.eq('V start', V[0], V1, scale=[a1, a2]); c.eq('V end', V[-1], V2, scale=[a1, a2, V1])
    c.eq('I start', I[0], -I1, scale=[a1/Z, a2/Z]); c.eq('I end', I[-1], I2, scale=[a1/Z, a2/Z, I1])
    c.true('as many', len(xs) == len(V) == len(I))
    if d and not isinstance(dx, int): 
        c.true('number of nodes', len(xs) == dx[1])
        for k in range(dx[1]):
            x = L*k/(dx[1]-1) if dx[0] == '+' else (L*k/(dx[1]-1.5) if k < dx[1]-1 else L)
            c.eq('node', xs[k], x, scale=[L])
    for k in range(0, len(xs), max(1, len(xs)//7)):
        ch, sh, Zl = law(f, xs[k])
        c.eq('V(x)', V[k], ch*V1-Zl*sh*I1, scale=[V1, ch*V1, sh*Zl*I1])
        c.eq('I(x)', I[k], sh/Zl*V1-ch*I1, scale=[I1, ch*I1, sh/Zl*V1])

def solve(c, sub, which):
    """solveVI from given voltage and current at the start"""
    el = par(c, sub); law = Law(c, el); L = length(c); f = freq(c); Z0 = c.pos('Zb', 5, 60)
    o = c.rf.rfTRL(L=L, Zbase=Z0, dx=L/2.5, **el)
    V0 = c.cplx('V0') if 'V' in which else None; I0 = c.cplx('I0') if 'I' in which else None
    xs, V, I = o.solveVI(f, V0, I0) if which != 'I' else o.solveVI(f, I0=I0)
    v, i = V0 if V0 is not None else 0., I0 if I0 is not None else 0.
    for k in range(len(xs)):
        ch, sh, Zl = law(f, xs[k])
        c.eq('V', V[k], ch*v+Zl*sh*i, scale=[ch*v, sh*Zl*i]); c.eq('I', I[k], sh/Zl*v+ch*i, scale=[sh/Zl*v, ch*i])

def chain(c, sub, n, dxs):
    """lines of one type in a row are one line"""
    el = par(c, sub); f = freq(c); Z = c.pos('Zq', 5, 60)
    Ls = [length(c, f'L{k}') for k in range(n)]
    o = c.rf.rfCircuit(Zbase=Z, Id='chain')
    for k in range(n):
        o.addblock(f'T{k}', c.rf.rfTRL(L=Ls[k], Zbase=c.pos(f'Zb{k}', 5, 60), **el))
        if k: o.connect(f'T{k-1}.2', f'T{k}.1')
    M = o.getS(f)
    laws(c, 'chain', M, f, Z, Law(c, el), sum(Ls[1:], Ls[0]))

def swhist(c, dx):
    """other excitations, impedances and lengths in between"""
    sub = SUB[1]
    el = par(c, sub); law = Law(c, el); f = [freq(c, 'f0'), freq(c, 'f1')]; Z0 = c.pos('Zb', 5, 60)
    L = [length(c, 'L0'), length(c, 'L1')]
    o = c.rf.rfTRL(L=L[0], Zbase=Z0, dx=L[0]/1.5, **el)
    A = [(c.cplx(f'p{k}'), c.cplx(f'q{k}')) for k in range(2)]
    Z = [Z0, c.pos('Zr', 5, 60)]
    cur = 0
    for l, k, z, a in ((0, 0, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (0, 1, 1, 1), (0, 0, 0, 0), (1, 0, 0, 0), (1, 1, 1, 1)):
        if l != cur: o.set(L=L[l]); cur = l; o.dx = L[l]/1.5
        xs, (V, I, _) = o.VISWs(f[k], {'1': A[a][0], '2': A[a][1]}, Z[z] if z else None)
        V1, I1 = V[0], -I[0]; V2, I2 = V[-1], I[-1]
        c.eq('a1', (V1+Z[z]*I1)/2, A[a][0]); c.eq('a2', (V2+Z[z]*I2)/2, A[a][1])
        ch, sh, Zl = law(f[k], L[l])
        c.eq('V', V2, ch*V1-Zl*sh*I1, scale=[ch*V1, Zl*sh*I1, V2]); c.eq('I', I2, sh/Zl*V1-ch*I1, scale=[I2, sh/Zl*V1, ch*I1])

def flist(c, n, rep, kind):
    el = par(c, SUB[3]); law = Law(c, el); L = length(c); Z0 = c.pos('Zb', 5, 60); Z = c.pos('Zr', 5, 60)
    fs = [freq(c, f'f{k}') for k in range(n)]
    if rep: fs[-1] = fs[0]
    R = c.rf.rfTRL(L=L, Zbase=Z0, **el).getS(c.np.array(fs) if kind == 'arr' else fs if kind == 'list' else tuple(fs), Zbase=Z)
    c.true('as many', len(R) == n)
    for k in range(n): laws(c, f'[{k}]', R[k], fs[k], Z, law, L)

def from_vi(c, kind, Z):
    m = c.cmat('M', 2)
    Z0 = c.pos('Z0', 5, 60) if Z else 30.
    M = m if kind == 'arr' else [[m[0, 0], m[0, 1]], [m[1, 0], m[1, 1]]]
    try: R = c.mod('S_from_VI').S_from_VI(M, *((Z0,) if Z else ()))
    except c.np.linalg.LinAlgError: c.assume(False)
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    b1, b2 = R[0, 0]*a1+R[0, 1]*a2, R[1, 0]*a1+R[1, 1]*a2
    V1, V2, I1, I2 = a1+b1, a2+b2, (a1-b1)/Z0, (a2-b2)/Z0
    c.eq('V', V2, m[0, 0]*V1-m[0, 1]*I1, scale=[V1, V2, Z0*I1]); c.eq('I', I2, m[1, 0]*V1-m[1, 1]*I1, scale=[I1, I2, V1])
    for bad in ([[1., 2.]], [[1., 2., 3.], [4., 5., 6.]], [1., 2., 3., 4.]):
        c.raises('shape', lambda: c.mod('S_from_VI').S_from_VI(bad), ValueError)

def dc(c, sub, z):
    """frequency 0: no inductance or capacitance is left"""
    el = par(c, sub); L = length(c); Z0 = c.pos('Zb', 5, 60)
    M = c.rf.rfTRL(L=L, Zbase=Z0, **el).getS(z)
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    b1, b2 = M[0, 0]*a1+M[0, 1]*a2, M[1, 0]*a1+M[1, 1]*a2
    V1, V2, I1, I2 = a1+b1, a2+b2, (a1-b1)/Z0, (a2-b2)/Z0
    r, g = el.get('rTL', 0), el.get('gTL', 0)
    if 'rTL' in el and 'gTL' in el: ch, sh, Zl = Law(c, el)(0, L); A, B, C = ch, Zl*sh, sh/Zl
    else: A, B, C = 1, r*L, g*L
    c.eq('V', V2, A*V1-B*I1, scale=[V1, V2]); c.eq('I', I2, C*V1-A*I1, scale=[I1, I2])

def scenarios(tier):
    q = tier == 'quick'
    L = []
    T = 'rfTRL.getS,rfTRL.solveVI,S_from_VI'
    for i, sub in enumerate(SUB):
        n = '+'.join(sub)
        for how in ('num', 'mix'):
            for Zr in (False, True): L.append(S(f'S {n} {how} {Zr}', smat, dict(sub=sub, how=how, Zr=Zr), target=T))
        for how in ('list', 'arr', 'w') if i in (0, 3) else (): L.append(S(f'S {n} {how}', smat, dict(sub=sub, how=how, Zr=True), target=T))
        L.append(S(f'S {n} dx7', smat, dict(sub=sub, how='num', Zr=True, dx=7), target=T))
        L.append(S(f'S {n} dx L/3', smat, dict(sub=sub, how='num', Zr=False, dx=lambda L: L/3.), target=T))
        for dx in (72, 5., -5.):
            for how in ('float', 'int', 'set', 'params'):
                L.append(S(f'zero {n} {dx} {how}', zero, dict(sub=sub, dx=dx, Zr=how != 'int', how=how), target=T, conc=2))
        L.append(S(f'any length {n}', anyL, dict(sub=sub), target=T))
        for dx in (None, 11, ('+', 2), ('+', 3), ('+', 5), ('-', 2), ('-', 4)):
            for Zr in (False, True):
                if Zr and dx in (('+', 2), ('-', 2)): continue
                L.append(S(f'waves {n} {dx} {Zr}', sw, dict(sub=sub, dx=dx, Zr=Zr, ports=('p', 'q') if Zr else None), target='rfTRL.VISWs,rfTRL.solveVI'))
        for which in ('VI', 'V', 'I'): L.append(S(f'solve {n} {which}', solve, dict(sub=sub, which=which), target='rfTRL.solveVI'))
        L.append(S(f'chain {n} 2', chain, dict(sub=sub, n=2, dxs=None), target='rfTRL,rfCircuit'))
        if not q or i == 0: L.append(S(f'chain {n} 3', chain, dict(sub=sub, n=3, dxs=None), target='rfTRL,rfCircuit', tl=60 if q else 300))
        for z in (0., 0): L.append(S(f'dc {n} {z}', dc, dict(sub=sub, z=z), target=T))
    L.append(S('defaults', defaults, {}, target=T))
    L.append(S('waves history', swhist, dict(dx=None), target='rfTRL.VISWs'))
    for n in (0, 1, 3, 4):
        for rep in (False, True):
            if rep and n < 3: continue
            L.append(S(f'list {n} {rep}', flist, dict(n=n, rep=rep, kind=('arr', 'list', 'tuple')[n % 3]), target='rfTRL.getS'))
    for k in ('arr', 'list'):
        for Z in (False, True): L.append(S(f'S_from_VI {k} {Z}', from_vi, dict(kind=k, Z=Z), target='S_from_VI'))
    return L
