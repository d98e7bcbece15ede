"""C01 conversions between S, Z, Y and VI descriptions"""
from vc.api import S
LEVEL = 'other'
BOUNDS = ('every number of ports and frequencies for the laws b = S a, the inverses and the shapes (matrix-algebra tier, generic matrices: those whose inverses the code asks for exist); '
          'in addition every shape up to N<=3 (thorough 5), nF<=3 entry by entry')
EXPLANATION = ('The four conversions are executed from the current source on matrices of open size; b = S a and the inverse laws are identities of the free algebra '
               'generated by one arbitrary matrix. The same laws, with scalars, 1D lists, nested lists and all rejected shapes, are discharged entry by entry for small shapes, '
               'and S_from_VI (always 2x2) for arbitrary entries.')

def conv(c, f, g, N, nF, Zb, inverse):
    """wave definition for each frequency; shape kept; inverse"""
    rf = c.rf
    z0 = c.pos('z0', 1, 100) if Zb == 'real' else c.cplx('z0', 50)
    def data():
        if nF == 's': return c.cplx('x')
        if nF == 'v': return c.np.array([c.cplx(f'x{i}') for i in range(N)])
        if nF == 'm': return c.cmat('x', N)
        return c.np.array([c.cmat(f'x{k}_', N) for k in range(nF)])
    X = data()
    kind = f
    F = getattr(rf, f)
    Y = F(X, z0) if Zb != 'kw' else F(X, Zbase=z0)
    c.true('shape', c.np.shape(Y) == c.np.shape(X))
    if c.np.shape(Y) != c.np.shape(X): return
    # each frequency separately
    def item(A, k):
        if nF == 's': return c.np.array([[A]])
        if nF == 'v': return c.np.array([[A[k]]])
        if nF == 'm': return A
        return A[k]
    n = {'s': 1, 'v': N, 'm': 1}.get(nF, nF)
    for k in range(n):
        check(c, f, item(X, k), item(Y, k), z0, f'[{k}]')
    if inverse:
        B = getattr(rf, g)(Y, z0)
        c.eq('inverse', B, X)

def check(c, f, x, y, z0, tag):
    """for every V, I allowed: b = S a"""
    N = len(x)
    i = c.np.array([[c.cplx(f'i{k}')] for k in range(N)])
    if f == 'S_from_Z':
        V, I, Sm = x @ i, i, y
    elif f == 'S_from_Y':
        V, I, Sm = i, x @ i, y
    elif f == 'Z_from_S':
        # I arbitrary, V = Z I; waves obey S
        V, I, Sm = y @ i, i, x
    elif f == 'Y_from_S':
        V, I, Sm = i, y @ i, x
    a, b = (V+z0*I)/2, (V-z0*I)/2
    c.eq('b = S a'+tag, b, Sm @ a)

def badshape(c, f):
    F = getattr(c.rf, f)
    z0 = c.pos('z0', 1, 100)
    A = c.cmat('x', 2, 3)
    c.raises('non square', lambda: F(A, z0), ValueError)
    B = c.np.array([c.cmat('y', 2, 3), c.cmat('u', 2, 3)])
    c.raises('stack of non square', lambda: F(B, z0), ValueError)
    D = c.np.array([[c.cmat('v', 2, 2)]])
    c.raises('4D', lambda: F(D, z0), ValueError)

def lists(c, f):
    """nested python lists are as good as arrays; default Zbase is 50"""
    F = getattr(c.rf, f)
    A = [[c.cplx('a'), c.cplx('b')], [c.cplx('d'), c.cplx('e')]]
    c.eq('list = array', F(A, c.pos('z0', 1, 100)), F(c.np.array(A), c.pos('z0', 1, 100)))
    c.eq('default', F(A), F(A, 50))

def vi(c, Zb):
    """[V2, I2] = M [V1, I1], I1 counted out of port 1 and I2 into port 2 (figure in the docstring)"""
    z0 = c.pos('z0', 1, 100)
    M = c.cmat('m', 2)
    Sm = c.rf.S_from_VI(M, z0) if Zb == 'arg' else c.rf.S_from_VI(M, Z0=z0) if Zb == 'kw' else c.rf.S_from_VI(
        [[M[0,0], M[0,1]], [M[1,0], M[1,1]]], z0) if Zb == 'list' else c.rf.S_from_VI(M)
    if Zb == 'default': z0 = 30
    V1, J1 = c.cplx('V1'), c.cplx('J1')
    V2, I2 = M[0,0]*V1+M[0,1]*J1, M[1,0]*V1+M[1,1]*J1
    V, I = c.np.array([[V1], [V2]]), c.np.array([[-J1], [I2]])
    a, b = (V+z0*I)/2, (V-z0*I)/2
    c.eq('b = S a', b, Sm @ a)

def vibad(c):
    z0 = c.pos('z0', 1, 100)
    c.raises('3x3', lambda: c.rf.S_from_VI(c.cmat('m', 3), z0), ValueError)
    c.raises('2x3', lambda: c.rf.S_from_VI(c.cmat('m', 2, 3), z0), ValueError)

def scenarios(tier):
    L = []
    pairs = [('S_from_Z', 'Z_from_S'), ('S_from_Y', 'Y_from_S'), ('Z_from_S', 'S_from_Z'), ('Y_from_S', 'S_from_Y')]
    mx = 3 if tier == 'quick' else 5
    for f, g in pairs:
        tg = f'{f},{g},_check_3D_shape_'
        for Zb in ('real', 'cplx'):
            L.append(S(f'{f} scalar {Zb}', conv, dict(f=f, g=g, N=1, nF='s', Zb=Zb, inverse=True), target=tg))
            for n in (1, 3): L.append(S(f'{f} 1D{n} {Zb}', conv, dict(f=f, g=g, N=n, nF='v', Zb=Zb, inverse=True), target=tg))
            for N in range(1, mx+1):
                L.append(S(f'{f} {N}x{N} {Zb}', conv, dict(f=f, g=g, N=N, nF='m', Zb=Zb, inverse=True), target=tg))
            for N in (1, 2, 3):
                for nF in (1, 2, 3):
                    if nF*N <= 6: L.append(S(f'{f} {nF}x{N}x{N} {Zb}', conv, dict(f=f, g=g, N=N, nF=nF, Zb=Zb, inverse=True), target=tg))
        L.append(S(f'{f} kw', conv, dict(f=f, g=g, N=2, nF='m', Zb='kw', inverse=True), target=tg))
        L.append(S(f'{f} bad shapes', badshape, dict(f=f), target=tg))
        L.append(S(f'{f} lists', lists, dict(f=f), target=tg))
        for N, nF in ((5, 'm'), (8, 'm'), (11, 'm'), (4, 5), (6, 6), (5, 12)):
            L.append(S(f'{f} large {nF} {N}', conv, dict(f=f, g=g, N=N, nF=nF, Zb='real', inverse=True), target=tg, sym=False))
        L.append(S(f'{f} large 1D', conv, dict(f=f, g=g, N=17, nF='v', Zb='real', inverse=True), target=tg, sym=False))
    for k in ('arg', 'kw', 'list', 'default'): L.append(S(f'S_from_VI {k}', vi, dict(Zb=k), target='S_from_VI', bounded=False))
    L.append(S('S_from_VI bad shapes', vibad, target='S_from_VI'))
    return L

def extra(tier, seed, scratch):
    import os
    from vc import ncalg
    return ncalg.extra(ncalg.c01, os.environ.get('PYRFTK_REPO', '/repo'), seed)
