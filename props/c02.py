"""C02 re-referencing (ConvertGeneral)"""
from vc.api import S
LEVEL = 'other'
BOUNDS = ('every number of ports and frequencies for the definition and the identity (matrix-algebra tier: all 9 type pairs, scalar, per port and per frequency and port impedances); '
          'in addition N<=3 ports, nF<=3 frequencies entry by entry, with compositions and round trips')
EXPLANATION = ('ConvertGeneral is executed symbolically from the current source for every pair of wave types, every documented form of the two '
               'impedances and every shape of input with all matrix entries and impedances symbolic; each obligation b2 = S2 a2 (same V and I), '
               'identity, composition and round trip is an identity of rational functions discharged by exact finite-field identity testing. '
               'Those sizes are bounded (N<=3, nF<=3); the definition and the identity are also discharged for every size, on matrices of open size (vc/ncalg.py).')

def zk(c, name, cplx):
    r = c.pos(name, 1, 80)
    return r + 1j*c.real(name+'x', lo=-40, hi=40) if cplx else r

def zform(c, name, form, nF, N, cplx, lst):
    """(argument, per frequency and port table)"""
    if form == 's':
        z = zk(c, name, cplx); return z, [[z]*N for _ in range(nF)]
    if form == 'p':
        z = [zk(c, f'{name}{i}', cplx) for i in range(N)]
        return (z if lst else c.np.array(z)), [z]*nF
    z = [[zk(c, f'{name}{k}_{i}', cplx) for i in range(N)] for k in range(nF)]
    return (z if lst else c.np.array(z)), z

def waves_to_VI(c, a, b, Z, typ):
    s = c.np.sqrt
    if typ == 'V': return a+b, (a-b)/Z
    if typ == 'P': return s(Z)*(a+b), (a-b)/s(Z)
    R = s(c.np.real(Z))
    return (c.np.conj(Z)*a+Z*b)/R, (a-b)/R

def VI_to_waves(c, V, I, Z, typ):
    s = c.np.sqrt
    if typ == 'V': return (V+Z*I)/2, (V-Z*I)/2
    if typ == 'P': return (V+Z*I)/(2*s(Z)), (V-Z*I)/(2*s(Z))
    R = s(c.np.real(Z))
    return (V+Z*I)/(2*R), (V-c.np.conj(Z)*I)/(2*R)

def make(c, shape, N, nF):
    if shape == 0: return c.cplx('s')
    if shape == 1: return c.np.array([c.cplx(f's{k}') for k in range(nF)])
    if shape == 2: return c.cmat('s', N)
    return c.np.array([c.cmat(f's{k}_', N) for k in range(nF)])

def items(c, A, shape, nF):
    if shape == 0: return [c.np.array([[A]])]
    if shape == 1: return [c.np.array([[A[k]]]) for k in range(nF)]
    if shape == 2: return [A]
    return [A[k] for k in range(nF)]

def conv(c, shape, N, nF, t1, t2, f1, f2, cplx, lst=False, kw=False):
    S1 = make(c, shape, N, nF)
    Z1, T1 = zform(c, 'z', f1, nF, N, cplx and t1 != 'P', lst)
    Z2, T2 = zform(c, 'y', f2, nF, N, cplx and t2 != 'P', lst)
    S2 = c.rf.ConvertGeneral(Z2, S1, Z1, type1=t1, type2=t2) if kw else c.rf.ConvertGeneral(Z2, S1, Z1, t1, t2)
    if c.np.shape(S2) != c.np.shape(S1):
        c.true('shape kept', False); return
    for k, (A, B) in enumerate(zip(items(c, S1, shape, nF), items(c, S2, shape, nF))):
        a = [c.cplx(f'a{k}_{i}') for i in range(N)]
        b = [sum(A[i, j]*a[j] for j in range(N)) for i in range(N)]
        VI = [waves_to_VI(c, a[i], b[i], T1[k][i], t1) for i in range(N)]
        W = [VI_to_waves(c, VI[i][0], VI[i][1], T2[k][i], t2) for i in range(N)]
        # the waves stand for the same V and I in the first description
        c.eq(f'definition [{k}]', [VI_to_waves(c, *VI[i], T1[k][i], t1) for i in range(N)], [(a[i], b[i]) for i in range(N)])
        c.eq(f'b2 = S2 a2 [{k}]', [w[1] for w in W], [sum(B[i, j]*W[j][0] for j in range(N)) for i in range(N)])

def laws(c, shape, N, nF, t1, t2, f1, f2, cplx):
    CG = c.rf.ConvertGeneral
    S1 = make(c, shape, N, nF)
    Z1, T1 = zform(c, 'z', f1, nF, N, cplx and t1 != 'P', False)
    Z2, T2 = zform(c, 'y', f2, nF, N, cplx and t2 != 'P', False)
    Z3, _ = zform(c, 'w', 's', nF, N, False, False)
    c.eq('identity', CG(Z1, S1, Z1, t1, t1), S1)
    S2 = CG(Z2, S1, Z1, t1, t2)
    c.eq('undone', CG(Z1, S2, Z2, t2, t1), S1)
    c.eq('composition', CG(Z3, S2, Z2, t2, 'V'), CG(Z3, S1, Z1, t1, 'V'))

def defaults(c):
    S1 = c.cmat('s', 2)
    z, y = c.pos('z', 1, 80), c.pos('y', 1, 80)
    c.eq('default types are V', c.rf.ConvertGeneral(y, S1, z), c.rf.ConvertGeneral(y, S1, z, 'V', 'V'))
    c.eq('lists', c.rf.ConvertGeneral([y, z], [[S1[0, 0], S1[0, 1]], [S1[1, 0], S1[1, 1]]], z), c.rf.ConvertGeneral(c.np.array([y, z]), S1, z))
    c.raises('unknown type', lambda: c.rf.ConvertGeneral(y, S1, z, 'V', 'X'), ValueError)
    c.raises('unknown type', lambda: c.rf.ConvertGeneral(y, S1, z, 'X', 'V'), ValueError)

def scenarios(tier):
    L = [S('defaults', defaults, target='ConvertGeneral')]
    T = 'VPG'
    tg = 'ConvertGeneral,_check_3D_shape_'
    shapes = [(0, 1, 1), (1, 1, 3), (2, 2, 1), (3, 2, 2)]
    if tier == 'thorough': shapes += [(1, 1, 2), (2, 3, 1), (2, 4, 1), (3, 3, 2), (3, 2, 3), (3, 1, 4), (3, 1, 1)]
    else: shapes += [(2, 3, 1), (3, 1, 2), (3, 2, 3)]
    for t1 in T:
        for t2 in T:
            for n, (sh, N, nF) in enumerate(shapes):
                forms = [('s', 's'), ('p', 'f'), ('f', 'p')] if tier == 'quick' else [(x, y) for x in 'spf' for y in 'spf']
                for f1, f2 in forms:
                    if nF*N > 6 and tier == 'quick' and (f1, f2) != ('f', 'p'): continue
                    L.append(S(f'{t1}->{t2} shape{sh} N{N} nF{nF} {f1}{f2}', conv,
                               dict(shape=sh, N=N, nF=nF, t1=t1, t2=t2, f1=f1, f2=f2, cplx=True, lst=f1 == 'f', kw=f1 == 'p'), conc=2, target=tg))
            for sh, N, nF in ((3, 5, 5), (3, 4, 9), (2, 9, 1), (1, 1, 14)):
                f1, f2 = 'spf'[(N+ord(t1)) % 3], 'spf'[(nF+ord(t2)) % 3]
                L.append(S(f'{t1}->{t2} large {sh} N{N} nF{nF}', conv, dict(shape=sh, N=N, nF=nF, t1=t1, t2=t2, f1=f1, f2=f2, cplx=True), conc=2, target=tg, sym=False))
            L.append(S(f'laws {t1}->{t2} 2D', laws, dict(shape=2, N=2, nF=1, t1=t1, t2=t2, f1='p', f2='p', cplx=True), conc=2, target=tg))
            L.append(S(f'laws {t1}->{t2} 3D', laws, dict(shape=3, N=2, nF=2, t1=t1, t2=t2, f1='f', f2='s', cplx=True), conc=2, target=tg))
            L.append(S(f'laws {t1}->{t2} 1D', laws, dict(shape=1, N=1, nF=2, t1=t1, t2=t2, f1='f', f2='s', cplx=True), conc=2, target=tg))
    return L

def extra(tier, seed, scratch):
    import os
    from vc import ncalg
    return ncalg.extra(ncalg.c02, os.environ.get('PYRFTK_REPO', '/repo'), seed)
