"""C11 tables"""
import itertools, os, random
from vc.api import S
from .c16 import pickled
LEVEL = 'other'
BOUNDS = ('tables of up to 3 ports and 5 frequencies built in every order, histories of up to 7 operations (fill, overwrite, sort, rename, reorder, re-reference, copy, pickle, '
          'insert, read), all values and frequencies symbolic; polar interpolation with up to 3 frequencies; lines given a measured table, in every data format'
          '; concrete runs only (bounded, not proved): tables of up to 12 ports and 30 frequencies, histories of 40 operations')
EXPLANATION = ('The table is compared with a map from frequency to matrix that follows the same operations. After every history each tabulated frequency, asked for alone, in a '
               'list, in other units and at other reference impedances, must return the matrix of the map, and an arbitrary frequency between neighbours the interpolant of '
               'the sorted map. interp1d is the contract of vc/shim.py (linear: the segment; as many points as the order needs: the interpolating polynomial; else a '
               'combination whose weights depend on nodes, order and point only); concretely it is scipy.')
TRUSTED = ['scipy.interpolate.interp1d']
ASSUMPTIONS = ['unit conversions are exact; the rounding of real machines is only covered by the concrete samples']
T = 'rfObject.getS,rfObject.setS,rfObject._interp_,rfObject._sort_fs_,rfObject.sortports,rfObject.convert2newZbase,rfObject.__setitem__'
U = {'Hz': 1., 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}
NAMES = ['q', 'B', 'a', '10', '9', 'z', 'P 2', 'A', 'aa', 'b.c', '2', 'x']

def freqs(c, n, unit='Hz', deg=0):
    """n increasing frequencies, in that unit"""
    fs, f = [], 0
    for i in range(n):
        d = c.pos(f'df{i}', 3, 30)
        if not c.symbolic: d = round(d*10**deg)/10**deg
        f = f+d; fs.append(f)
    if c.symbolic: return [f*1e6/U[unit] for f in fs]
    from fractions import Fraction
    return [float(Fraction(f'{f:.{deg}f}' if deg else str(int(f)))*1000000/Fraction(int(U[unit]))) for f in fs]

def reref(c, M, Z0, Z1):
    if Z0 is Z1: return M
    r = (Z1-Z0)/(Z1+Z0); n = len(M)
    return (M-r*c.eye(n)) @ c.inv(c.eye(n)-r*M)

def interp1d(c, xs, ys, kind):
    if c.symbolic:
        from vc import shim
        return shim.HOOKS['interp1d'](c.np.array(xs), c.np.array(ys), kind=kind, axis=0)
    import scipy.interpolate, numpy
    return scipy.interpolate.interp1d(numpy.array(xs), numpy.array(ys), kind=kind, axis=0)

def between(c, xs, Ms, how, kind, x):
    """the interpolant of sorted data"""
    np = c.np
    A = np.array(Ms)
    k = min(kind, len(xs)-1)
    def ip(Y):
        if k == 1:
            i = max(j for j in range(len(xs)-1) if xs[j] < x)
            t = (x-xs[i])/(xs[i+1]-xs[i])
            return Y[i]*(1-t)+Y[i+1]*t
        return interp1d(c, xs, Y, k)(x)
    if how == 'RI': return ip(np.real(A))+1j*ip(np.imag(A))
    ang = np.unwrap(np.angle(A), axis=0)
    if how == 'MA': return ip(np.abs(A))*np.exp(1j*ip(ang))
    return np.exp(ip(np.log(np.abs(A)))+1j*ip(ang))

class Model:
    def __init__(s, c, n, Z): s.c, s.n, s.Z, s.d, s.ports = c, n, Z, {}, None
    def sorted(s):
        ks = sorted(s.d); return [s.d[k][0] for k in ks], [s.d[k][1] for k in ks]

def run(c, n, m, ops, unit='Hz', how='RI', kind=3, obs='all'):
    np = c.np
    fs = freqs(c, m, unit)
    Z = c.pos('Zb', 10, 80); Z2 = c.pos('Z2', 10, 80)
    c.assume(Z != Z2)
    names = NAMES[:n]
    kw = dict(ports=list(names), Zbase=Z, funit=unit, interp=how, interpkws={'kind': kind})
    o = c.rf.rfObject(**kw)
    M = Model(c, n, Z); M.ports = list(names)
    cnt = [0]
    def new():
        cnt[0] += 1
        X = c.cmat(f'S{cnt[0]}_', n)
        if how != 'RI':
            for t in X.flat: c.assume(t != 0)
        return X
    def expect(k, X, Zq):
        return reref(c, X, M.Z, Zq)
    def inner(i):
        """strictly between the i-th and the next of the map"""
        xs, Ms = M.sorted()
        t = c.between(f't{i}', 0, 1)
        if c.symbolic: c.assume(t > 0); c.assume(t < 1)
        x = xs[i]+(xs[i+1]-xs[i])*t
        if c.symbolic: c.assume(x > xs[i]); c.assume(x < xs[i+1])
        return x, xs, Ms
    def observe(tag):
        c.true(tag+' ports', list(o.ports) == M.ports); c.true(tag+' size', len(o) == n)
        ks = sorted(M.d)
        for k in ks: c.eq(f'{tag} f{k}', o.getS(M.d[k][0]), M.d[k][1], 1e-12, 0)
        if len(ks) > 1:
            r = [M.d[k][0] for k in reversed(ks)]+[M.d[ks[0]][0]]
            c.eq(tag+' list', o.getS(r if len(ks) % 2 else np.array(r)), np.array([M.d[k][1] for k in reversed(ks)]+[M.d[ks[0]][1]]), 1e-12, 0)
        if ks:
            f, X = M.d[ks[-1]]
            c.eq(tag+' other reference', o.getS(f, Zbase=Z2), reref(c, X, M.Z, Z2))
            c.eq(tag+' other references', o.getS([f], Zbase=Z2), np.array([reref(c, X, M.Z, Z2)]))
        if len(ks) > 1:
            for i in ((len(ks)-2,) if obs == 'one' else range(len(ks)-1)):
                x, xs, Ms = inner(i)
                y = between(c, xs, Ms, how, kind, x)
                c.eq(f'{tag} between {i}', o.getS(x), y, 1e-7)
            c.eq(tag+' between, other reference', o.getS([x], Zbase=Z2), np.array([reref(c, y, M.Z, Z2)]))
            c.eq(tag+' after', o.getS(M.d[ks[0]][0]), M.d[ks[0]][1], 1e-12, 0)
            if len(ks) > 1:
                c.raises(tag+' below', lambda: o.getS(xs[0]/2), ValueError); c.raises(tag+' above', lambda: o.getS(xs[-1]*2), ValueError)
    for step, op in enumerate(ops):
        a = op[0]
        if a == 'set':
            X = new(); o.setS(fs[op[1]], X); M.d[op[1]] = (fs[op[1]], X.copy())
        elif a == 'setlist':
            Xs = [new() for _ in op[1]]
            o.setS([fs[k] for k in op[1]], Xs if step % 2 else np.array(Xs))
            for k, X in zip(op[1], Xs): M.d[k] = (fs[k], X)
        elif a == 'setitem':
            # the j-th entry gets another matrix
            j = op[1] % len(o.fs)
            f = o.fs[j]; k = [k for k in M.d if M.d[k][0] == f][0]
            X = new(); o[j] = (f, X); M.d[k] = (M.d[k][0], X)
        elif a == 'moveitem':
            # the j-th entry is moved to another frequency
            j = op[1] % len(o.fs)
            f = o.fs[j]; k = [k for k in M.d if M.d[k][0] == f][0]
            if op[2] not in M.d:
                X = new(); o[j] = (fs[op[2]], X); del M.d[k]; M.d[op[2]] = (fs[op[2]], X)
        elif a == 'sort':
            o.sortports(); ix = sorted(range(n), key=lambda i: M.ports[i])
            M.ports = [M.ports[i] for i in ix]; M.d = {k: (f, X[ix][:, ix]) for k, (f, X) in M.d.items()}
        elif a == 'order':
            want = [p for p in op[1] if p in M.ports]
            o.sortports(want); rest = [p for p in M.ports if p not in want]
            ix = [M.ports.index(p) for p in want+rest]
            M.ports = want+rest; M.d = {k: (f, X[ix][:, ix]) for k, (f, X) in M.d.items()}
        elif a == 'rename':
            M.ports = [p+op[1] for p in M.ports]; o.ports = list(M.ports)
        elif a == 'zbase':
            Zn = Z2 if M.Z is Z else Z
            o.convert2newZbase(Zn); M.d = {k: (f, reref(c, X, M.Z, Zn)) for k, (f, X) in M.d.items()}; M.Z = Zn
            c.eq(f'{step} reference', o.Zbase, Zn)
        elif a == 'copy': o = o.copy()
        elif a == 'pickle': o = pickled(c, o)
        elif a == 'getlist':
            o.getS([M.d[k][0] for k in M.d], Zbase=Z2)
        elif a == 'between':
            if len(M.d) > 1:
                x, xs, Ms = inner(0); c.eq(f'{step} between', o.getS(x), between(c, xs, Ms, how, kind, x), 1e-7)
        elif a == 'insert':
            ks = sorted(M.d)
            if len(M.d) > 1 and ks[1] == ks[0]+1:
                x, xs, Ms = inner(0); y = between(c, xs, Ms, how, kind, x)
                r = o._interp_(x, insert=True)
                c.eq(f'{step} inserted', r, np.array([y]), 1e-7)
                M.d[min(M.d)+.5] = (x, y)
        elif a == 'look': observe(f'{step}')
        elif a == 'iter':
            got = [(f, X) for f, X in o]
            c.true(f'{step} entries', len(got) == len(M.d))
            for i, (f, X) in enumerate(got):
                k = [k for k in M.d if M.d[k][0] == f]
                c.true(f'{step} entry {i} known', len(k) == 1)
                if k: c.eq(f'{step} entry {i}', X, M.d[k[0]][1], 1e-12, 0)
                g, Y = o[i]; c.eq(f'{step} item {i}', g, f); c.eq(f'{step} item {i} S', Y, X)
    observe('end')

def units(c, unit, n, m, deg, kws):
    """requests in any unit"""
    fs = freqs(c, m, unit, deg)
    np = c.np
    o = c.rf.rfObject(ports=NAMES[:n], funit=unit, interp='RI', **({'interpkws': {'kind': 1}} if kws else {}))
    Ss = [c.cmat(f'S{i}_', n) for i in range(m)]
    for i in reversed(range(m)): o.setS(fs[i], Ss[i])
    for u in list(U)+['MHZ', 'ghz']:
        key = {k.upper(): k for k in U}[u.upper()]
        q = freqs(c, m, key, deg)
        for i in range(m): c.eq(f'{u} {i}', o.getS(q[i], funit=u), Ss[i], 1e-12, 0)
        c.eq(f'{u} list', o.getS(q, funit=u), np.array(Ss), 1e-12, 0)
        if m > 1:
            x = q[0]+(q[1]-q[0])*c.between('t', .1, .9)
            if c.symbolic: y = x*(U[key]/U[unit]); c.assume(x > q[0]); c.assume(x < q[1]); c.assume(y > fs[0]); c.assume(y < fs[1])
            c.eq(f'{u} between', o.getS(x, funit=u), o.getS(x*(U[key]/U[unit])), 1e-7)
    c.eq('own', o.getS(fs), np.array(Ss), 1e-12, 0)

def measured(c, m, how, rd, order):
    """a line given measured data: those at their frequencies, the interpolation of the sorted data between"""
    from .c12 import pair
    np = c.np
    fs = freqs(c, m, 'Hz')
    Ms = [c.cmat(f'S{i}_', 2) for i in range(m)]
    if how != 'RI' and c.symbolic:       # a symmetric network, for the number of paths
        for X in Ms: X[1, 0] = X[0, 1]; X[0, 0] = X[1, 1] = .25+.125j
    if how != 'RI':
        for X in Ms:
            for t in X.flat: c.assume(t != 0)
    Zb = c.pos('Zb', 10, 80); R = c.pos('R', 10, 80)
    if rd: c.assume(R != Zb)
    def num(x): return f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        L = ['! measured', f'# HZ S {how.upper()} R '+num(R if rd else Zb)]
        for f, X in zip(fs, Ms): L.append(' '.join([num(f)]+[num(v) for z in X.T.flat for v in pair(c, z, how.upper())]))
        t = '\n'.join(L)+'\n'
    path = 'm%d.s2p' % os.getpid()
    with open(path, 'w') as g: g.write(t)
    try:
        o = c.rf.rfTRL(L=1.3, Z0TL=30., Zbase=Zb, sNp=path)
        Ds = list(c.mod('ReadTSF').ReadTSF(path, Zbase=Zb, funit='Hz')['Ss'])     # C12: equal to the data
    finally: os.unlink(path)
    if rd: Ms = [reref(c, X, R, Zb) for X in Ms]
    if rd and how != 'RI' and c.symbolic:
        for X in Ms:
            for t in X.flat: c.assume(t != 0)
    c.eq('list', o.getS([fs[k] for k in order]), np.array([Ms[k] for k in order]), 1e-7, 1e-7)
    for k in order: c.eq(f'tabulated {k}', o.getS(fs[k]), Ms[k], 1e-7, 1e-7)
    if m > 1:
        for i in range(m-1):
            t = c.between(f't{i}', .05, .95)
            if c.symbolic: c.assume(t > 0); c.assume(t < 1)
            x = fs[i]+(fs[i+1]-fs[i])*t
            if c.symbolic: c.assume(x > fs[i]); c.assume(x < fs[i+1])
            c.eq(f'between {i}', o.getS(x), between(c, fs, Ds, 'dB' if how == 'DB' else how, 3, x), 1e-6, 1e-6)

def constant(c, n, how, ports):
    """a matrix alone is a table for all frequencies"""
    M = c.cmat('S', n)
    if how == 'dB':
        for t in M.flat: c.assume(t != 0)
    Z = c.pos('Zb', 10, 80); Z2 = c.pos('Z2', 10, 80); c.assume(Z != Z2)
    o = c.rf.rfObject(M if n > 1 else c.np.array(M), Zbase=Z, interp=how, **({'ports': NAMES[:n]} if ports else {}))
    c.true('ports', list(o.ports) == (NAMES[:n] if ports else [f'm{k:03d}' for k in range(1, n+1)]))
    f = c.pos('f', 1, 90)*1e6
    c.eq('anywhere', o.getS(f), M); c.eq('list', o.getS([f, 2*f]), c.np.array([M, M])); c.eq('0', o.getS(0.), M)
    c.eq('reference', o.getS(f, Zbase=Z2), reref(c, M, Z, Z2))
    o.sortports(list(reversed(o.ports)))
    c.eq('reversed', o.getS(f), M[::-1, ::-1])
    if n > 1 and ports:
        c.raises('not square', lambda: c.rf.rfObject(c.np.array([[0.]*n]*(n+1))), TypeError); c.raises('3D', lambda: c.rf.rfObject(c.np.zeros((1, n, n))), TypeError)
        c.raises('ports', lambda: c.rf.rfObject(M, ports=NAMES[:n-1]), ValueError)

def impedances(c, n, m, order, want):
    """port impedances and propagation constants kept with a table stay with their ports and frequencies"""
    o = c.rf.rfObject(ports=NAMES[:n], interp='RI')
    fs = freqs(c, m); Ss = [c.cmat(f'S{i}_', n) for i in range(m)]
    for i in order: o.setS(fs[i], Ss[i])
    Zc = [[c.cplx(f'Zc{i}{k}') for k in range(n)] for i in range(m)]; Gm = [[c.cplx(f'G{i}{k}') for k in range(n)] for i in range(m)]
    o.Zcs = c.np.array([Zc[i] for i in order]); o.Gms = c.np.array([Gm[i] for i in order])
    o.sortports([NAMES[k] for k in want] if want else str.__lt__)
    o.getS(fs[0]+(fs[1]-fs[0])*c.between('t', 0, 1)) if m > 1 else o.getS(fs[0])
    c.true('ports', sorted(o.ports) == sorted(NAMES[:n]))
    ix = [NAMES.index(p) for p in o.ports]
    for a in range(m):
        i = [j for j in range(m) if c.np.all(o.fs[a] == fs[j])][0]
        c.eq(f'impedances {i}', list(o.Zcs[a]), [Zc[i][k] for k in ix]); c.eq(f'constants {i}', list(o.Gms[a]), [Gm[i][k] for k in ix])
        c.eq(f'matrix {i}', o.Ss[a], Ss[i][c.np.ix_(ix, ix)] if not c.symbolic else c.np.array([[Ss[i][r, q] for q in ix] for r in ix]))

def rejects(c, n, m):
    """what does not fit is rejected and leaves the table as it was"""
    o = c.rf.rfObject(ports=NAMES[:n])
    fs = freqs(c, m)
    Ss = [c.cmat(f'S{i}_', n) for i in range(m)]
    for f, X in zip(fs, Ss): o.setS(f, X)
    g = fs[-1]*2
    for l, f in (('two matrices', lambda: o.setS(g, [Ss[0], Ss[0]])), ('two frequencies', lambda: o.setS([g, 2*g], [Ss[0]])), ('size', lambda: o.setS(g, c.cmat('X', n+1))), ('names', lambda: o.setS(g, Ss[0], Portnames=NAMES[:n]))):
        c.raises(l, f, Exception)
        c.eq(l+' after', o.getS(fs), c.np.array(Ss)); c.true(l+' len', len(o.fs) == m and list(o.ports) == NAMES[:n])
    p = c.rf.rfObject(); p.setS(fs, Ss, Portnames=NAMES[:n])
    c.true('names given', list(p.ports) == NAMES[:n] and len(p) == n); c.eq('data', p.getS(fs), c.np.array(Ss))

def base(c, n, m, order, kind):
    """objects without interpolation"""
    np = c.np
    fs = freqs(c, m)
    Ss = [c.cmat(f'S{i}_', n) for i in range(m)]
    Z = c.pos('Zb', 10, 80); Z2 = c.pos('Z2', 10, 80); c.assume(Z != Z2)
    o = c.rf.rfBase(Ss=[Ss[i] for i in order], fs=[fs[i] for i in order], Zbase=Z, **({'ports': NAMES[:n]} if kind else {}))
    c.true('ports', list(o.ports) == (NAMES[:n] if kind else [str(k+1) for k in range(n)]))
    for i in range(m):
        c.eq(f'f{i}', o.getS(fs[i]), Ss[i], 1e-12, 0); c.eq(f'get1S {i}', o.get1S(fs[i]), Ss[i], 1e-12, 0)
        c.eq(f'f{i} other', o.getS(fs[i], Zbase=Z2), reref(c, Ss[i], Z, Z2))
    c.eq('all', np.array(o.getS(fs)), np.array(Ss)); c.eq('default', np.array(o.getS()), np.array([Ss[i] for i in order]))
    c.eq('list other', np.array(o.getS(fs[::-1], Zbase=Z2)), np.array([reref(c, X, Z, Z2) for X in Ss[::-1]]))
    x = c.between('x', 0, 1)
    for i in range(m-1):
        g = fs[i]+(fs[i+1]-fs[i])*x
        c.raises(f'between {i}', lambda: o.getS(g), ValueError); c.raises(f'between {i} list', lambda: o.getS([fs[0], g]), ValueError)
    c.raises('below', lambda: o.getS(fs[0]*x), ValueError); c.raises('above', lambda: o.getS(fs[-1]+x), ValueError)
    c.eq('after', np.array(o.getS(fs)), np.array(Ss))

def walk(rng, n, m, L):
    ops = [('set', rng.randrange(m))]
    have = {ops[0][1]}
    for _ in range(L):
        a = rng.choice(['set', 'set', 'set', 'setlist', 'setitem', 'moveitem', 'sort', 'order', 'rename', 'zbase', 'copy', 'pickle', 'getlist', 'between', 'insert', 'look', 'iter'])
        if a in ('set',): ops.append((a, rng.randrange(m)))
        elif a == 'setlist': ops.append((a, tuple(rng.sample(range(m), rng.randint(1, m)))))
        elif a == 'setitem': ops.append((a, rng.randrange(9)))
        elif a == 'moveitem': ops.append((a, rng.randrange(9), rng.randrange(m)))
        elif a == 'order': ops.append((a, tuple(rng.sample(NAMES[:n], rng.randint(1, n)))))
        elif a == 'rename': ops.append((a, rng.choice('xy')))
        elif a == 'insert' and any(o[0] == 'insert' for o in ops): continue
        else: ops.append((a,))
    return ops

def scenarios(tier):
    q = tier == 'quick'
    L = []
    # every order of insertion
    for m in (1, 2, 3, 4) if q else (1, 2, 3, 4, 5):
        for p in itertools.permutations(range(m)):
            L.append(S(f'order {p}', run, dict(n=2 if m < 3 else 1, m=m, ops=[('set', k) for k in p], kind=(1, 3)[sum(p[::2]) % 2], obs='all'), target=T, conc=2))
            if m < 4: L.append(S(f'list {p}', run, dict(n=1, m=m, ops=[('setlist', p), ('look',), ('zbase',), ('look',), ('set', p[0])], kind=2), target=T, conc=2))
    for how, n, m, kind in (('MA', 1, 2, 1), ('MA', 1, 3, 1), ('MA', 1, 3, 2), ('MA', 2, 2, 1), ('dB', 1, 2, 1), ('dB', 1, 3, 3), ('dB', 2, 2, 3), ('MA', 1, 4, 3)):
        for k, p in enumerate(list(itertools.permutations(range(m)))[:6]):
            L.append(S(f'{how} {n} {m} {kind} {p}', run, dict(n=n, m=m, ops=[('set', j) for j in p], how=how, kind=kind), target=T, conc=4, sym=m < 4 and n == 1, maxpaths=80))
    for n, m, order, want in ((2, 1, (0,), (1, 0)), (3, 2, (1, 0), (1, 2, 0)), (3, 3, (2, 0, 1), (2, 0, 1)), (3, 2, (0, 1), None), (3, 2, (1, 0), (2, 0))): L.append(S(f'impedances {n} {order} {want}', impedances, dict(n=n, m=m, order=order, want=want), target=T, conc=2))
    for unit in U:
        for n, m, deg in ((1, 1, 6), (2, 3, 6), (1, 4, 3)):
            for kws in (0, 1): L.append(S(f'units {unit} {n} {m} {kws}', units, dict(unit=unit, n=n, m=m, deg=deg, kws=kws), target='rfObject.getS', conc=30 if q else 300))
            L.append(S(f'histories {unit} {n} {m}', run, dict(n=n, m=m, unit=unit, ops=[('set', 0), ('look',), ('setlist', tuple(range(m)))]), target=T, conc=2))
    for n in (1, 2, 3):
        for how in ('RI', 'MA', 'dB'):
            for ports in (0, 1): L.append(S(f'constant {n} {how} {ports}', constant, dict(n=n, how=how, ports=ports), target='rfObject.__init__,rfObject.getS', conc=3, maxpaths=40))
        for m in (1, 2): L.append(S(f'rejects {n} {m}', rejects, dict(n=n, m=m), target='rfObject.setS'))
        for m in (1, 2, 3):
            for j, order in enumerate(itertools.permutations(range(m))):
                L.append(S(f'base {n} {order}', base, dict(n=n, m=m, order=order, kind=j % 2), target='rfBase.get1S,rfBase.getS'))
    for i in range(150 if q else 2000):
        rng = random.Random(f'c11/{i}')
        n, m = rng.choice((1, 2, 2, 3)), rng.choice((2, 3, 3, 4))
        L.append(S(f'walk {i}', run, dict(n=n, m=m, ops=walk(rng, n, m, 7 if q else 9), kind=rng.choice((1, 2, 3)), unit=rng.choice(list(U)), obs='one'), target=T, conc=2))
    for m in (1, 2, 3, 4):
        for how in ('RI', 'MA', 'DB'):
            for rd in (0, 1):
                for j, order in enumerate([tuple(range(m)), tuple(reversed(range(m)))+(0,)]):
                    L.append(S(f'measured {m} {how} {rd} {order}', measured, dict(m=m, how=how, rd=rd, order=order), target='rfTRL.__init__,rfTRL.getS', conc=6, sym=how == 'RI' or m < 3 and not rd, maxpaths=80))
    # beyond the proved sizes: concrete only
    for i in range(30 if q else 300):
        rng = random.Random(f'c11/large/{i}')
        n, m = rng.randint(4, 12), rng.randint(6, 30)
        p = list(range(m)); rng.shuffle(p)
        L.append(S(f'large order {i}', run, dict(n=n, m=m, ops=[('set', k) for k in p] if i % 2 else [('setlist', tuple(p[:m//2])), ('setlist', tuple(p[m//2:]))], kind=1+i % 3, obs='all', unit=rng.choice(list(U))), target=T, sym=False, conc=1))
        n, m = rng.randint(2, 9), rng.randint(5, 15)
        L.append(S(f'large walk {i}', run, dict(n=n, m=m, ops=walk(rng, n, m, 40), kind=rng.choice((1, 2, 3)), unit=rng.choice(list(U)), obs='one'), target=T, sym=False, conc=1))
        n, m = rng.randint(4, 12), rng.randint(3, 12)
        od, w = list(range(m)), list(range(n)); rng.shuffle(od); rng.shuffle(w)
        L.append(S(f'large impedances {i}', impedances, dict(n=n, m=m, order=tuple(od), want=tuple(w) if i % 3 else None), target=T, sym=False, conc=1))
        L.append(S(f'large base {i}', base, dict(n=n, m=m, order=tuple(od), kind=i % 2), target='rfBase.get1S,rfBase.getS', sym=False, conc=1))
    return L
