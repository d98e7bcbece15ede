"""C06 lumped elements"""
from vc.api import S
import itertools
LEVEL = 'other'
BOUNDS = 'all 64 subsets of given elements x {f>0, f=0}; all values symbolic; lists of up to 3 frequencies'
EXPLANATION = ('rfRLC and rfArcObj are executed symbolically for every subset of elements with symbolic frequency, element values and reference '
               'impedance; the branch equations V1-V2 = zs I1, I1+I2 = yp V2 (and V = jwL I) are discharged as identities of rational functions. '
               'These scalar functions have no size parameter: apart from the length of frequency lists the obligations are complete.')
E6 = ['Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp']

def elems(c, sub, tag=''):
    return {e: c.pos(e+tag, .3, 3) for e in sub}

def laws(c, label, Sm, f, Z, el):
    """the documented circuit, for arbitrary incident waves"""
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    c.eq(label+' shape', c.np.shape(Sm), (2, 2))
    b1, b2 = Sm[0, 0]*a1+Sm[0, 1]*a2, Sm[1, 0]*a1+Sm[1, 1]*a2
    V1, V2, I1, I2 = a1+b1, a2+b2, (a1-b1)/Z, (a2-b2)/Z
    dc = isinstance(f, (int, float)) and f == 0
    if not dc:
        jw = 2j*c.pi*f
        zs = el.get('Rs', 0)+jw*el.get('Ls', 0)+(1/(jw*el['Cs']) if 'Cs' in el else 0)
        yp = (1/el['Rp'] if 'Rp' in el else 0)+(1/(jw*el['Lp']) if 'Lp' in el else 0)+jw*el.get('Cp', 0)
        c.eq(label+' series', V1-V2, zs*I1, scale=[V1, V2])
        c.eq(label+' shunt', I1+I2, yp*V2, scale=[I1, I2])
    else:
        if 'Cs' in el: c.eq(label+' open series', I1, 0*I1)
        else: c.eq(label+' series', V1-V2, el.get('Rs', 0)*I1, scale=[V1, V2])
        if 'Lp' in el: c.eq(label+' shorted', V2, 0*V2)
        else: c.eq(label+' shunt', I1+I2, (1/el['Rp'] if 'Rp' in el else 0)*V2, scale=[I1, I2])

def freq(c, f):
    return 0. if f == 'zero' else 0 if f == 'izero' else c.pos('f', .3, 2)

def rlc(c, sub, f, how, Zb):
    el = elems(c, sub)
    f = freq(c, f)
    Z0 = c.pos('Zb', 5, 60)
    if how == 'init': o = c.rf.rfRLC(Zbase=Z0, **el); par = {}
    elif how == 'set':
        o = c.rf.rfRLC(Zbase=Z0)
        o.set(**el); par = {}
    elif how == 'params':
        # other values at construction, the right ones with the request
        o = c.rf.rfRLC(Zbase=Z0, **{e: c.pos(e+'_old', .3, 3) for e in sub}); par = {'params': el}
    if Zb: 
        Z = c.pos('Zr', 5, 60)
        Sm = o.getS(f, Zbase=Z, **par)
    else:
        Z = Z0; Sm = o.getS(f, **par)
    laws(c, how, Sm, f, Z, el)
    c.true('len', len(o) == 2)

def rlc_default(c):
    o = c.rf.rfRLC()
    f = c.pos('f')
    c.eq('through', o.getS(f), c.np.array([[0, 1], [1, 0]], dtype=complex))
    el = elems(c, E6)
    laws(c, 'default Zbase', c.rf.rfRLC(**el).getS(f), f, 50, el)
    c.eq('ports', list(c.rf.rfRLC().ports), ['s', 'p'])

def rlc_list(c, n, zero):
    el = elems(c, E6)
    Z0 = c.pos('Zb', 5, 60)
    o = c.rf.rfRLC(Zbase=Z0, **el)
    fs = [c.pos(f'f{k}', .3, 2) for k in range(n)]
    if zero: fs[-1] = 0.
    R = o.getS(c.np.array(fs))
    c.true('length', len(R) == n)
    for k in range(n): laws(c, f'[{k}]', R[k], fs[k], Z0, el)

def rlc_any_f(c):
    """frequency >= 0 left open: both branches"""
    f = c.real('f', nonneg=True, lo=0, hi=2)
    el = elems(c, ['Rs', 'Ls', 'Rp', 'Cp'])
    Z0 = c.pos('Zb', 5, 60)
    Sm = c.rf.rfRLC(Zbase=Z0, **el).getS(f)
    laws(c, 'f>=0', Sm, f, Z0, el)

def rlc_keep(c):
    """only the supplied parameters are replaced; attributes that cannot be set are rejected"""
    el = elems(c, E6)
    n = c.pos('new', .3, 3)
    f = c.pos('f', .3, 2)
    Z0 = c.pos('Zb', 5, 60)
    for e in E6:
        o = c.rf.rfRLC(Zbase=Z0, **el)
        laws(c, e, o.getS(f, params={e: n}), f, Z0, dict(el, **{e: n}))
        o = c.rf.rfRLC(Zbase=Z0, **el)
        o.getS(f); o.set(**{e: n})
        laws(c, 'set '+e, o.getS(f), f, Z0, dict(el, **{e: n}))
    c.raises('not settable', lambda: c.rf.rfRLC().set(Zbase=3.), ValueError)

def rlc_neutral(c, keep, how):
    """parameters may also be given the values that make an element absent"""
    el = elems(c, E6)
    f = c.pos('f', .3, 2)
    Z0 = c.pos('Zb', 5, 60)
    zero = {'Rs': 0., 'Ls': 0., 'Cs': c.np.inf, 'Rp': c.np.inf, 'Lp': c.np.inf, 'Cp': 0.}
    ch = {e: zero[e] for e in E6 if e not in keep}
    o = c.rf.rfRLC(Zbase=Z0, **el)
    o.getS(f)
    if how == 'params': R = o.getS(f, params=ch)
    elif how == 'set': o.set(**ch); R = o.getS(f)
    else: R = c.rf.rfRLC(Zbase=Z0, **dict(el, **ch)).getS(f)
    laws(c, how, R, f, Z0, {e: el[e] for e in keep})

def arc(c, how, Zb, f):
    L = c.pos('L', .3, 3)
    f = freq(c, f)
    Z0 = c.pos('Zb', 5, 60)
    if how == 'arg': o = c.rf.rfArcObj(L, Zbase=Z0, ports=['x'])
    elif how == 'kw': o = c.rf.rfArcObj(Larc=L, Zbase=Z0, ports=['x'])
    else:
        o = c.rf.rfArcObj(c.pos('Lold'), Zbase=Z0, ports=['x']); 
        o.getS(f); o.set(Larc=L)
    Z = c.pos('Zr', 5, 60) if Zb else Z0
    s = o.getS(f, Zbase=Z) if Zb else o.getS(f)
    c.true('1x1', c.np.shape(s) == (1, 1))
    s = s[0, 0]
    V, I = 1+s, (1-s)/Z
    c.eq('V = jwL I', V, 2j*c.pi*f*L*I)

def arc_list(c, n):
    L = c.pos('L', .3, 3); Z0 = c.pos('Zb', 5, 60); Z = c.pos('Zr', 5, 60)
    o = c.rf.rfArcObj(L, Zbase=Z0)
    fs = [c.pos(f'f{k}', .3, 2) for k in range(n)]
    for zz, kw in ((Z0, {}), (Z, {'Zbase': Z})):
        R = o.getS(fs, **kw)
        c.true('length', len(R) == n)
        for k in range(n):
            c.true(f'1x1 [{k}]', c.np.shape(R[k]) == (1, 1))
            c.eq(f'V = jwL I [{k}]', 1+R[k][0, 0], 2j*c.pi*fs[k]*L*(1-R[k][0, 0])/zz)

def arc_open(c):
    o = c.rf.rfArcObj(Zbase=c.pos('Zb', 5, 60))
    for f in (c.pos('f'), 0.):
        c.eq('open', o.getS(f), [[1]])
        c.eq('open, other Zbase', o.getS(f, Zbase=c.pos('Zr')), [[1]])

def scenarios(tier):
    L = [S('rlc default', rlc_default, target='rfRLC.getS'), S('rlc any f', rlc_any_f, target='rfRLC.getS'),
         S('rlc single changes', rlc_keep, maxpaths=200, target='rfRLC.getS,rfRLC.set'), S('arc open', arc_open, target='rfArcObj.get1S')]
    subs = [s for n in range(7) for s in itertools.combinations(E6, n)]
    for s in subs:
        for f in ('pos', 'zero', 'izero'):
            for how in ('init', 'params', 'set'):
                for Zb in (False, True):
                    if tier == 'quick' and (f == 'izero' or (how != 'init' and not Zb)) and len(s) % 3: continue
                    L.append(S(f'rlc {"+".join(s) or "none"} {f} {how} {"Zr" if Zb else "own"}', rlc,
                               dict(sub=list(s), f=f, how=how, Zb=Zb), conc=1, target='rfRLC.getS,rfRLC.__init__,rfRLC.set', bounded=False))
    for k in subs:
        for how in ('params', 'set', 'init'):
            if len(k) < 6: L.append(S(f'rlc neutral but {"+".join(k) or "none"} {how}', rlc_neutral, dict(keep=list(k), how=how), conc=1, target='rfRLC.getS,rfRLC.set', bounded=False))
    for n in (1, 2, 3):
        L.append(S(f'rlc list {n}', rlc_list, dict(n=n, zero=False), target='rfRLC.getS'))
        L.append(S(f'rlc list {n} with 0', rlc_list, dict(n=n, zero=True), target='rfRLC.getS'))
        L.append(S(f'arc list {n}', arc_list, dict(n=n), target='rfArcObj.get1S,rfBase.getS'))
    for how in ('arg', 'kw', 'set'):
        for Zb in (False, True):
            for f in ('pos', 'zero'):
                L.append(S(f'arc {how} {Zb} {f}', arc, dict(how=how, Zb=Zb, f=f), target='rfArcObj.__init__,rfArcObj.get1S,rfBase.getS,rfBase.set', bounded=False))
    return L
