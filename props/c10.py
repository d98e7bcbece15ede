"""C10 line parameters"""
from vc.api import S, rng_for
import itertools, json, os, random
LEVEL = 'other'
KEYS = ['OD', 'ID', 'rho', 'rhoO', 'rhoI', 'RsO', 'RsI', 'rTL', 'rTLO', 'rTLI', 'qTLI', 'qTLO', 'murI', 'murO', 'A', 'AdB', 'gTL', 'sigma', 'tand', 'LTL', 'CTL', 'Z0TL', 'epsr', 'mur', 'vr', 'etar']
BOUNDS = ('all sets of up to 3 of the 26 parameters and a fixed sample of the larger ones (thorough: all sets of 4 and a larger sample); '
          'for each set all positive values, frequencies and positions')
EXPLANATION = ('The values of a set are those of one physical line, parametrised by free positive numbers (so that sets with more parameters than degrees '
               'of freedom are consistent), given as functions of w and x. TLresolver is executed symbolically and every relation among the quantities it '
               'derived is discharged at an arbitrary frequency and position as an identity, as is the value of every quantity that the set determines. '
               'props/c10_sets.json records which sets are admissible: those solved without a contradiction with the documented assumptions '
               '(mur=1, epsr=1, Z0=Zbase, no losses).')

def coax(c): return c.np.sqrt(c.mu0/c.e0)/(2*c.pi)

COND = {'rTL', 'rTLO', 'rTLI', 'rho', 'rhoI', 'rhoO', 'RsI', 'RsO'}
DIEL = {'gTL', 'sigma', 'tand'}
def truth(c, sub, w, x, plain=False):
    """one physical line, at (w, x)"""
    k = 1 if plain else 1+x
    b = {n: c.pos('b'+n, lo, hi)*k for n, lo, hi in (('eta', .3, 1.5), ('v', .3, .9), ('K', .3, 1.5), ('ID', .05, .3), ('mI', .5, 3), ('mO', .5, 3))}
    if 'murI' not in sub: b['mI'] = 1
    if 'murO' not in sub: b['mO'] = 1
    sub = set(sub)
    att = bool(sub & {'A', 'AdB'})
    t = {}
    t['etar'], t['vr'] = b['eta'], b['v']; t['mur'] = b['eta']/b['v']; t['epsr'] = 1/(b['eta']*b['v'])
    t['ID'] = b['ID']; t['OD'] = b['ID']*c.np.exp(b['K']); t['Z0TL'] = Z = b['eta']*coax(c)*b['K']
    t['LTL'] = L = Z/(c.c0*b['v']); t['CTL'] = C = 1/(Z*c.c0*b['v'])
    # losses: (r+jwL)(g+jwC) = w2LC ((1/2q+jq)(1/2p+jp))^2, real part of the root 1/4pq-pq
    r = bool(sub & COND) or att
    g = bool(sub & DIEL) or att and bool(sub & COND)
    s2 = c.np.sqrt(2)
    q = c.pos('bq', .2, .65) if r else 1/s2
    p = c.pos('bp', .2, .65) if g else 1/s2
    rho = 1/(4*q*q)-q*q if r else 0
    gam = 1/(4*p*p)-p*p if g else 0
    if c.symbolic:
        if r: c.assume(q*q*2 < 1)
        if g: c.assume(p*p*2 < 1)
        c.positive(k, *([rho, 1/(4*q*q)+q*q] if r else []), *([gam, 1/(4*p*p)+p*p] if g else []),
                   *([1/(4*q*p)+q*p, 1/(4*q*p)-q*p] if r and g else [1/(2*q)-q, 1/(2*q)+q] if r else [1/(2*p)-p, 1/(2*p)+p] if g else []))
    t['rTL'] = R = rho*w*L
    t['gTL'] = G = gam*w*C
    t['A'] = w*c.np.sqrt(L*C)*((1/(4*q*p)-q*p) if r and g else (1/(2*q)-q)/s2 if r else (1/(2*p)-p)/s2 if g else 0)
    t['AdB'] = t['A']*20/c.np.log(10)
    t['sigma'] = G*b['K']/(2*c.pi); t['tand'] = t['sigma']/(w*t['epsr']*c.e0)
    t['qTLI'] = 1/(c.pi*t['ID']); t['qTLO'] = 1/(c.pi*t['OD'])
    t['murI'], t['murO'] = b['mI'], b['mO']
    if 'rho' in sub and not sub & {'rhoI', 'rhoO'}:
        # one resistivity: the share of each conductor follows
        a = c.np.sqrt(b['mI'])*t['qTLI']; d = c.np.sqrt(b['mO'])*t['qTLO']
        f = a/(a+d)
        if c.symbolic: c.positive(a+d)
    else:
        f = c.between('bt', 0, 1)
        if c.symbolic: c.positive(1-f)
    t['rTLI'], t['rTLO'] = f*R, (1-f)*R
    for k in 'IO':
        t['Rs'+k] = t['rTL'+k]/t['qTL'+k]
        t['rho'+k] = 2*t['Rs'+k]**2/(w*c.mu0*t['mur'+k])
    t['rho'] = t['rhoI']
    return t

def relations(c, g, w, sub):
    """(name, left, right) for every documented relation among the quantities known"""
    E = coax(c); pi = c.pi
    def r(n, ks, f):
        if all(k in g for k in ks): yield (n,)+tuple(f(*[g[k] for k in ks]))
    yield from r('Z0=sqrt(L/C)', ('Z0TL', 'LTL', 'CTL'), lambda Z, L, C: (Z*Z*C, L))
    yield from r('v=1/sqrt(LC)', ('vr', 'LTL', 'CTL'), lambda v, L, C: (v*v*c.c0*c.c0*L*C, 1))
    yield from r('coaxial Z0', ('Z0TL', 'etar', 'OD', 'ID'), lambda Z, e, O, I: (Z, e*E*c.np.log(O/I)))
    yield from r('coaxial g', ('gTL', 'sigma', 'OD', 'ID'), lambda G, s, O, I: (G*c.np.log(O/I), 2*pi*s))
    yield from r('g Z0', ('gTL', 'sigma', 'Z0TL', 'etar'), lambda G, s, Z, e: (G*Z, 2*pi*s*e*E))
    yield from r('r', ('rTL', 'rTLI', 'rTLO'), lambda a, b, d: (a, b+d))
    for k, d in (('I', 'ID'), ('O', 'OD')):
        yield from r('r'+k, ('rTL'+k, 'qTL'+k, 'Rs'+k), lambda a, b, d: (a, b*d))
        yield from r('q'+k, ('qTL'+k, d), lambda a, b: (a*pi*b, 1))
        yield from r('skin effect '+k, ('Rs'+k, 'mur'+k, 'rho'+k), lambda a, m, h: (2*a*a, w*c.mu0*m*h))
        if 'rho' in sub and not set(sub) & {'rhoI', 'rhoO'}: yield from r('rho'+k, ('rho', 'rho'+k), lambda a, b: (a, b))
    yield from r('medium impedance', ('etar', 'mur', 'epsr'), lambda a, m, e: (a*a*e, m))
    yield from r('medium velocity', ('vr', 'mur', 'epsr'), lambda a, m, e: (a*a*m*e, 1))
    yield from r('dB', ('A', 'AdB'), lambda a, d: (a*20, d*c.np.log(10)))
    def att(a, R, G, L, C):
        re = R*G-w*w*L*C
        return (2*a*a-re)**2, (R*R+w*w*L*L)*(G*G+w*w*C*C)
    yield from r('attenuation', ('A', 'rTL', 'gTL', 'LTL', 'CTL'), att)
    yield from r('loss tangent', ('sigma', 'epsr', 'tand'), lambda s, e, t: (s, w*e*c.e0*t))
    yield from r('rjwL', ('rjwL', 'rTL', 'LTL'), lambda a, R, L: (a, R+1j*w*L))
    yield from r('gjwC', ('gjwC', 'gTL', 'CTL'), lambda a, G, C: (a, G+1j*w*C))
    yield from r('Zc', ('Zc', 'rjwL', 'gjwC'), lambda a, R, L: (a*a*L, R))
    yield from r('gamma', ('gamma', 'rjwL', 'gjwC'), lambda a, R, L: (a*a, L*R))
    yield from r('beta', ('beta', 'LTL', 'CTL'), lambda a, L, C: (a*a, L*C*w*w))

class Num:
    """plain numbers instead of a context"""
    symbolic = False
    def __init__(s, vals):
        import numpy, math
        s.np, s.pi, s.v = numpy, math.pi, vals
        s.c0, s.mu0, s.e0 = 299792458., 1.25663706212e-06, 8.8541878128e-12
    def pos(s, n, lo, hi): return s.v.setdefault(n, lo+(hi-lo)*rng_for('c10', n).uniform(.3, .7))
    def between(s, n, lo, hi): return s.v.setdefault(n, .4)
DET = {}
def determined(sub):
    """quantities of the physical line that are functions of the given ones (rank of the Jacobian at one point)"""
    sub = tuple(sub)
    if sub not in DET:
        import numpy as np
        v0 = {}
        t0 = truth(Num(v0), sub, 3e8, 0)
        J, names = {}, list(v0)
        rows = {k: [] for k in t0}
        for n in names:
            h = 1e-6
            a = truth(Num({**v0, n: v0[n]*(1+h)}), sub, 3e8, 0); b = truth(Num({**v0, n: v0[n]*(1-h)}), sub, 3e8, 0)
            for k in t0: rows[k].append((a[k]-b[k])/(2*h)/(abs(t0[k]) or 1))
        M = np.array([rows[k] for k in sub]).reshape(len(sub), len(names))
        r = np.linalg.matrix_rank(M, 1e-5) if len(sub) else 0
        DET[sub] = {k for k in t0 if np.linalg.matrix_rank(np.vstack([M, rows[k]]), 1e-5) == r}
    return DET[sub]

def quiet(f):
    import io, contextlib
    o = io.StringIO()
    with contextlib.redirect_stdout(o): r = f()
    return r, o.getvalue()

def check(c, label, sub, how, w, x, kind='o'):
    Zb = c.pos('Zb', 20, 80)
    if how == 'fun':
        def fn(k): return lambda w, x: truth(c, sub, w, x)[k]
        kw = {k: fn(k) for k in sub}
    elif how == 'num':
        t0 = truth(c, sub, w, 0, True)
        kw = {k: t0[k] for k in sub}; kw['f0'] = w
    elif how == 'xw':
        def fn(k): return lambda x, w: truth(c, sub, w, x)[k]
        kw = {k: fn(k) for k in sub}
    if kind == 'o' and c.symbolic and how != 'num': truth(c, sub, w, x)      # assumptions first
    T, out = quiet(lambda: c.mod('resolveTLparams').TLresolver(L=1., Zbase=Zb, **kw))
    if kind == 'u': return
    if not (hasattr(T, 'rjwL') and hasattr(T, 'gjwC')):
        c.true(label+' solved', False); return
    g = {k: getattr(T, k)(w, x) for k in KEYS+['rjwL', 'gjwC', 'Zc', 'gamma', 'beta'] if hasattr(T, k)}
    t = truth(c, sub, w, x, how == 'num')
    for k in sub: c.eq(f'{label} {k} kept', g[k], t[k])
    if kind == 'b': c.true(label+' contradiction reported', 'warning' in out); return
    c.true(label+' no contradiction', 'warning' not in out)
    for n, a, b in relations(c, g, w, sub): c.eq(f'{label} {n}', a, b, floor=0)
    # (the radii are not recovered from qTLI and qTLO)
    for k in sorted(determined(sub)) if len(sub) < 4 and not (set(sub) & {'qTLI', 'qTLO'} and not {'OD', 'ID'} <= set(g)) else ():
        if k in g and k not in sub: c.eq(f'{label} {k} value', *((c.np.log(g[k]/t[k]), 0, 1e-8, 1) if k in ('ID', 'OD', 'qTLI', 'qTLO') else (g[k], t[k], None, 1e-30)))
    if not set(sub) & (COND | {'A', 'AdB'}): c.eq(label+' no r', g['rTL'], 0)
    if not set(sub) & DIEL and not (set(sub) & {'A', 'AdB'} and set(sub) & COND): c.eq(label+' no g', g['gTL'], 0)

def sets(c, subs, how):
    w = c.pos('w', 1, 6)*1e8
    x = 0*w if how == 'num' else c.pos('x', .1, 1)
    for kind, sub in subs:
        c.positive_only()
        check(c, '+'.join(sub) or 'none', sub, how, w, x, kind)

def assumed(c):
    """the documented assumptions"""
    w = c.pos('w', 1, 6)*1e8; x = c.pos('x', .1, 1); Zb = c.pos('Zb', 20, 80)
    R = c.mod('resolveTLparams').TLresolver
    def v(T, k): return getattr(T, k)(w, x)
    T, _ = quiet(lambda: R(L=1., Zbase=Zb))
    for k, y in (('Z0TL', Zb), ('vr', 1), ('mur', 1), ('epsr', 1), ('rTL', 0), ('gTL', 0), ('LTL', Zb/c.c0), ('CTL', 1/(Zb*c.c0)), ('rjwL', 1j*w*Zb/c.c0), ('gjwC', 1j*w/(Zb*c.c0))): c.eq(k, v(T, k), y)
    T, _ = quiet(lambda: R(L=1., Z0TL=30.))
    c.eq('Z', v(T, 'LTL'), 30./c.c0)
    T, _ = quiet(lambda: R(L=1.)); c.eq('50 Ohm', v(T, 'Z0TL'), 50.)
    e = c.pos('e', 1, 5)
    T, _ = quiet(lambda: R(L=1., Zbase=Zb, epsr=e))
    c.eq('epsr', v(T, 'vr'), 1/c.np.sqrt(e)); c.eq('epsr Z', v(T, 'Z0TL'), Zb); c.eq('epsr L', v(T, 'LTL'), Zb*c.np.sqrt(e)/c.c0); c.eq('epsr C', v(T, 'CTL'), c.np.sqrt(e)/(Zb*c.c0))
    a = c.pos('a', .01, .1)
    T, _ = quiet(lambda: R(L=1., Zbase=Zb, AdB=a))
    c.eq('A', v(T, 'A'), a*c.np.log(10)/20); c.eq('no medium losses', v(T, 'gTL'), 0)
    h = c.pos('h', 1, 5)*1e-8; D = c.pos('D', .2, .4); d = c.pos('d', .05, .15)
    T, _ = quiet(lambda: R(L=1., OD=D, ID=d, rho=h))
    c.eq('coax r', v(T, 'rTL')**2, w*c.mu0*h/2*(1/(c.pi*d)+1/(c.pi*D))**2); c.eq('coax Z0', v(T, 'Z0TL'), coax(c)*c.np.log(D/d))
    c.raises('unknown', lambda: R(L=1., Z0=3.), ValueError)
    c.raises('unknown', lambda: c.rf.rfTRL(L=1., Z0=3.), ValueError)

def lines(c, sub, n):
    """the line uses what the resolver derives, at its own frequency"""
    w0 = c.pos('w', 1, 6)*1e8
    t = truth(c, sub, w0, 0, True)
    f = w0/(2*c.pi)
    L = c.pos('L', .2, 2); Zb = c.pos('Zb', 20, 80)
    T, _ = quiet(lambda: c.mod('resolveTLparams').TLresolver(L=L, Zbase=Zb, **{k: t[k] for k in sub}))
    o, _ = quiet(lambda: c.rf.rfTRL(L=L, Zbase=Zb, **{k: t[k] for k in sub}))
    z, y = T.rjwL(w0, 0), T.gjwC(w0, 0)
    M = o.getS(f)
    g = (z*y)**.5
    e = c.np.exp(g*L)
    ch, sh, Z = (e+1/e)/2, (e-1/e)/2, z/g
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    b1, b2 = M[0, 0]*a1+M[0, 1]*a2, M[1, 0]*a1+M[1, 1]*a2
    V1, V2, I1, I2 = a1+b1, a2+b2, (a1-b1)/Zb, (a2-b2)/Zb
    c.eq('V', V2, ch*V1-Z*sh*I1, scale=[V1, V2, ch*V1]); c.eq('I', I2, sh/Z*V1-ch*I1, scale=[I1, I2, ch*I1])

def table():
    return json.load(open(os.path.join(os.path.dirname(__file__), 'c10_sets.json')))

def sampled(n, size):
    rng = random.Random(f'c10/{size}')
    out, seen = [], set()
    while len(out) < n:
        s = tuple(sorted(rng.sample(range(len(KEYS)), size)))
        if s in seen: continue
        seen.add(s); out.append(tuple(KEYS[i] for i in s))
    return out
SAMPLES = {5: 3000, 6: 2000, 7: 1500, 8: 1000, 9: 500}

def scenarios(tier):
    q = tier == 'quick'
    L = []
    Tn = 'TLresolver'
    t = table()
    for n in range(0, 5):
        all_ = [(k, s) for k, s in zip(t[str(n)], itertools.combinations(KEYS, n))]
        ok = [x for x in all_ if x[0] == 'o']
        bad = [x for x in all_ if x[0] == 'b']
        if n == 4 and q: bad = random.Random('c10b').sample(bad, 60)
        for i in range(0, len(bad), 20): L.append(S(f'contradictory sets of {n} {i//20}', sets, dict(subs=bad[i:i+20], how='fun'), target=Tn, sym=False, conc=1))
        if n == 4 and q: ok = random.Random('c10q').sample(ok, 300)
        m = 12
        forks = [x for x in ok if set(x[1]) & {'A', 'AdB'} and set(x[1]) & (COND | DIEL)]
        for i, x in enumerate(forks): L.append(S(f'lossy set {"+".join(x[1])}', sets, dict(subs=[x], how=('fun', 'xw')[i % 5 == 4]), target=Tn, conc=1, tl=60))
        ok = [x for x in ok if x not in forks]
        for i in range(0, len(ok), m): L.append(S(f'sets of {n} {i//m}', sets, dict(subs=ok[i:i+m], how=('fun', 'xw')[i//m % 5 == 4]), target=Tn, conc=1 if n > 2 else 2, tl=90))
        if n <= 2 or not q:
            for i in range(0, len(ok), m): L.append(S(f'numbers {n} {i//m}', sets, dict(subs=ok[i:i+m], how='num'), target=Tn, conc=1, tl=90))
    for n, cnt in SAMPLES.items():
        ok = [(k, s) for k, s in zip(t[str(n)], sampled(cnt, n)) if k == 'o']
        if q:
            att = [x for x in ok if set(x[1]) & {'A', 'AdB'}][:12]
            for i in range(0, len(att), 6): L.append(S(f'attenuation sets of {n} {i//6}', sets, dict(subs=att[i:i+6], how='fun'), target=Tn, conc=1, sym=False))
            ok = [x for x in ok if not set(x[1]) & {'A', 'AdB'}][:18]
        for i in range(0, len(ok), 6): L.append(S(f'sets of {n} {i//6}', sets, dict(subs=ok[i:i+6], how='fun'), target=Tn, conc=1, tl=90))
    L.append(S('assumptions', assumed, {}, target=Tn))
    for k, sub in enumerate([(), ('Z0TL',), ('LTL', 'CTL'), ('Z0TL', 'vr', 'rTL', 'gTL'), ('OD', 'ID', 'epsr', 'tand', 'rho'), ('Z0TL', 'AdB'), ('OD', 'Z0TL', 'rho', 'sigma'), ('Z0TL', 'qTLI', 'qTLO', 'rhoI', 'rhoO', 'murI')]):
        L.append(S(f'line {k}', lines, dict(sub=sub, n=1), target='rfTRL,TLresolver'))
    return L
