"""C09 the ideal coupler"""
from vc.api import S
LEVEL = 'other'
BOUNDS = 'no size parameter except lists of frequencies (<=3)'
EXPLANATION = ('rfCoupler is executed symbolically with symbolic coupling, length / centre frequency, frequency and reference impedance; unitarity, '
               'symmetry, matching, isolation, exchange symmetries, the coupling at the centre frequency and the equivalence of the ways of giving '
               'a quantity are identities over sin, cos, sqrt and exp atoms, discharged by exact finite-field identity testing (sin^2+cos^2=1, '
               'sqrt(x)^2=x and exp(a+b)=exp(a)exp(b) built in).')

def make(c, kind, kform, **kw):
    if kform == 'kc': kc = c.between('kc', 0, 1); k = {'kc': kc}
    elif kform == 'dB':
        d = c.pos('kcdB', .5, 20); k = {'kcdB': d}; kc = 10**(-d/20)
    elif kform == '-dB':
        d = c.pos('kcdB', .5, 20); k = {'kcdB': -d}; kc = 10**(-d/20)
    else: k = {}; kc = c.np.sqrt(.5)
    if kind == 'Lc': g = {'Lc': c.pos('Lc', .1, 3)}
    elif kind == 'f0': g = {'f0Hz': c.pos('f0', 1e6, 9e7)}
    else: g = {}
    return c.rf.rfCoupler(**k, **g, **kw), kc, g

def core(c, kind, kform, Zb=False, ports=None):
    Z0 = c.pos('Zb', 5, 60)
    kw = {'Zbase': Z0}
    if ports: kw['ports'] = list(ports)
    o, kc, g = make(c, kind, kform, **kw)
    f = c.pos('f', 1e6, 9e7)
    Sm = o.getS(f)
    c.eq('shape', c.np.shape(Sm), (4, 4))
    c.true('len', len(o) == 4)
    c.eq('ports', list(o.ports), list(ports or ['A1', 'A2', 'B1', 'B2']))
    one = c.np.array([[1 if i == j else 0 for j in range(4)] for i in range(4)])
    H = [[c.np.conj(Sm[j, i]) for j in range(4)] for i in range(4)]
    c.eq('unitary', [[sum(H[i][k]*Sm[k, j] for k in range(4)) for j in range(4)] for i in range(4)],
         [[1 if i == j else 0 for j in range(4)] for i in range(4)])
    c.eq('reciprocal', Sm, Sm.T)
    c.eq('matched', [Sm[i, i] for i in range(4)], [0]*4)
    c.eq('isolated', [Sm[0, 3], Sm[3, 0], Sm[1, 2], Sm[2, 1]], [0]*4)
    P = [2, 3, 0, 1]; Q = [1, 0, 3, 2]
    c.eq('strips alike', [[Sm[P[i], P[j]] for j in range(4)] for i in range(4)], Sm.tolist())
    c.eq('ends alike', [[Sm[Q[i], Q[j]] for j in range(4)] for i in range(4)], Sm.tolist())

def centre(c, kind, kform):
    o, kc, g = make(c, kind, kform, Zbase=c.pos('Zb', 5, 60))
    f0 = g['f0Hz'] if kind == 'f0' else c.c0/(4*g['Lc']) if kind == 'Lc' else c.pos('f', 1e6, 9e7)
    Sm = o.getS(f0)
    c.eq('coupling at f0', c.np.abs(Sm[0, 2]), kc)
    c.eq('coupling at f0, other end', c.np.abs(Sm[1, 3]), kc)
    c.eq('through at f0', c.np.abs(Sm[0, 1])**2, 1-kc*kc)
    if kind == 'none':
        c.eq('every frequency is central', o.getS(c.pos('f2', 1e6, 9e7)), Sm)

def equiv(c):
    kc = c.between('kc', 0, 1); L = c.pos('Lc', .1, 3); f = c.pos('f', 1e6, 9e7)
    C = c.rf.rfCoupler
    a = C(kc=kc, Lc=L).getS(f)
    c.eq('Lc = c0/4f0', C(kc=kc, f0Hz=c.c0/(4*L)).getS(f), a)
    c.eq('dB', C(kcdB=20*c.np.log10(kc), Lc=L).getS(f), a)
    c.eq('-dB', C(kcdB=-20*c.np.log10(kc), Lc=L).getS(f), a)
    o = C(kc=kc, Lc=L)
    c.eq('attributes', [o.f0Hz, o.Lc, c.np.abs(o.kcdB)], [c.c0/(4*L), L, c.np.abs(20*c.np.log10(kc))])
    o = C(kcdB=c.pos('d', .5, 20), f0Hz=c.pos('f0', 1e6, 9e7))
    c.eq('attributes', [o.kc, o.Lc], [10**(-c.pos('d', .5, 20)/20), c.c0/(4*c.pos('f0', 1e6, 9e7))])
    c.eq('default 3dB', C(Lc=L).getS(f), C(kc=c.np.sqrt(.5), Lc=L).getS(f))

def textbook(c):
    """the coupler of coupled TEM lines: A = s/(s cos + j sin), B = j k sin/(s cos + j sin)"""
    o, kc, g = make(c, 'Lc', 'kc', Zbase=c.pos('Zb', 5, 60))
    f = c.pos('f', 1e6, 9e7)
    Sm = o.getS(f)
    th = 2*c.pi*f*g['Lc']/c.c0
    s = c.np.sqrt(1-kc*kc)
    c.eq('coupled lines', [Sm[0, 2]*s, Sm[0, 1]*1j*kc*c.np.sin(th)], [Sm[0, 1]*1j*kc*c.np.sin(th), Sm[0, 2]*s])
    c.eq('electrical length', Sm[0, 1]*(s*c.np.cos(th)+1j*c.np.sin(th)), s)

def bad(c):
    C = c.rf.rfCoupler
    c.raises('kc and kcdB', lambda: C(kc=.5, kcdB=3.))
    c.raises('Lc and f0Hz', lambda: C(Lc=.5, f0Hz=3e6))
    c.raises('3 ports', lambda: C(ports=['a', 'b', 'c']), ValueError)
    c.raises('5 ports', lambda: C(ports=['a', 'b', 'c', 'd', 'e']), ValueError)

def lists(c, n):
    o, kc, g = make(c, 'Lc', 'kc', Zbase=c.pos('Zb', 5, 60))
    fs = [c.pos(f'f{k}', 1e6, 9e7) for k in range(n)]
    R = o.getS(fs)
    c.true('length', len(R) == n)
    for k in range(n): c.eq(f'[{k}]', R[k], o.getS(fs[k]))

def scenarios(tier):
    L = []
    t = 'rfCoupler.__init__,rfCoupler.get1S,rfBase.getS'
    for kind in ('Lc', 'f0', 'none'):
        for kf in ('kc', 'dB', '-dB', 'none'):
            L.append(S(f'coupler {kind} {kf}', core, dict(kind=kind, kform=kf), target=t, bounded=False))
            L.append(S(f'centre {kind} {kf}', centre, dict(kind=kind, kform=kf), target=t, bounded=False))
    L.append(S('port names', core, dict(kind='Lc', kform='kc', ports=['p', 'q', 'r', 's']), target=t, bounded=False))
    L.append(S('equivalent forms', equiv, target=t, bounded=False))
    L.append(S('coupled lines', textbook, target=t, bounded=False))
    L.append(S('contradictions', bad, target=t))
    for n in (1, 2, 3): L.append(S(f'list {n}', lists, dict(n=n), target=t))
    return L
