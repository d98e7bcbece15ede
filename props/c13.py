"""C13 deembedding"""
import itertools, random
from vc.api import S
from . import _circ as ci
from .c07 import Law, par
from .c11 import between, U
LEVEL = 'other'
BOUNDS = ('tables of up to 4 ports and 3 frequencies, every subset and order of the deembedded ports; circuits of a measured network with up to 3 remaining ports and deembedded '
          'networks of up to 3 pairs of ports, as one block or several; all S-matrices, lengths, line impedances, reference impedances and frequencies symbolic'
          '; concrete runs only (bounded, not proved): tables of up to 9 ports and 12 frequencies, up to 6 pairs of deembedded ports')
EXPLANATION = ('After deembedding, the network is put back together from the telegrapher\'s equations of the lines, the waves of the result and the junctions, solved independently, '
               'and must be the original one, entry by entry as a rational function; for circuits the deembedded block is joined again to the result by the network equations.')
T = 'rfObject.deembed'
TC = 'rfCircuit.deembed,rfCircuit.getS,rfCircuit.addblock,rfCircuit.connect'

def freqs(c, n, unit):
    f, fs = 0, []
    for i in range(n):
        f = f+c.pos(f'df{i}', 3, 30); fs.append(f*1e6/U[unit])
    return fs

def cascade(c, M, Z0, ports, lines, f):
    """the network M with these lines {port: (law, length)} connected to its ports"""
    net = ci.Net(c); net.Zb = Z0
    for p in ports: net.port(p)
    net.law(list(ports), M, Z0)
    free = []
    for p in ports:
        if p not in lines: free.append(p); continue
        law, L = lines[p]
        q = 'new '+p; net.port(q)
        ch, sh, Zl = law(f, L)
        # the current into the line at its inner end is the one out of the port
        net.eqs.append(([(('V', q), 1), (('V', p), -ch), (('I', p), -Zl*sh)], 0))
        net.eqs.append(([(('I', q), 1), (('V', p), -sh/Zl), (('I', p), -ch)], 0))
        free.append(q)
    return c.np.array(ci.refS(c, net, free, Z0), dtype=complex)

def spec(c, form, k, Z0):
    """the line of one port: what is given to deembed, what undoes it, the line which is connected"""
    L = c.pos(f'L{k}', .2, 1.9); Z = c.pos(f'Z{k}', 10, 90)
    sg = -1 if form.endswith('-') else 1
    form = form.rstrip('-')
    v0 = 1/c.c0
    if form == 'len': return sg*L, -sg*L, (Law(c, {'LTL': Z0*v0, 'CTL': v0/Z0}), -sg*L)
    if form == 'int': return sg*2, -sg*2, (Law(c, {'LTL': Z0*v0, 'CTL': v0/Z0}), -2*sg)
    if form == 'tuple': return (sg*L, Z), (-sg*L, Z), (Law(c, {'LTL': Z*v0, 'CTL': v0/Z}), -sg*L)
    el = {'LTL': Z*v0, 'CTL': v0/Z} if form == 'dict' else par(c, ('rTL', 'gTL', 'LTL', 'CTL'), f'_{k}')
    kw = {'Z0TL': Z} if form == 'dict' else dict(el)
    if form == 'lossyZ': kw['Zbase'] = 17.
    return dict(kw, L=sg*L), dict(kw, L=-sg*L), (Law(c, el), sg*L)

NAMES = ['q', 'B', 'a', '10', '9', 'z', 'P2', 'A', 'aa']
def mk(c, n, m, unit, Z0, order=None):
    fs = freqs(c, m, unit)
    o = c.rf.rfObject(ports=NAMES[:n], Zbase=Z0, funit=unit, interp='RI', interpkws={'kind': 1})
    Ms = [c.cmat(f'S{i}_', n) for i in range(m)]
    for i in order or range(m): o.setS(fs[i], Ms[i].copy())
    return o, fs, Ms

def table(c, n, m, forms, unit='Hz', order=None, inter=False):
    """forms: {port: form}; the result is the cascade, and undoing it restores the table"""
    Z0 = c.pos('Zb', 5, 60)
    o, fs, Ms = mk(c, n, m, unit, Z0, order)
    if inter: o.getS(fs[0]+(fs[1]-fs[0])/3)
    sp = {p: spec(c, f, k, Z0) for k, (p, f) in enumerate(forms.items())}
    for s_ in sp.values(): c.positive(*(x for x in s_[2][0].el.values()))
    try: r = o.deembed({p: v[0] for p, v in sp.items()})
    except RuntimeError: c.assume(False)       # no deembedded network exists
    c.true('in place', r is None)
    lines = {p: v[2] for p, v in sp.items()}
    ref = [cascade(c, Ms[i], Z0, NAMES[:n], lines, fs[i]*U[unit]) for i in range(m)]
    c.eq('ports', list(o.ports), NAMES[:n]); c.true('size', len(o) == n)
    for i in range(m): c.eq(f'S{i}', o.getS(fs[i]), ref[i])
    if m > 1: c.eq('list', o.getS(list(reversed(fs))), c.np.array(list(reversed(ref))))
    if inter:
        x = (fs[0]+2*fs[1])/3
        c.eq('between', o.getS(x), (ref[0]+2*ref[1])/3)
    back = {p: v[1] for p, v in sp.items()}
    try:
        if n % 2: o.deembed(back)
        else:
            for p in reversed(list(back)): o.deembed({p: back[p]})     # one after the other
    except RuntimeError: c.assume(False)
    for i in range(m): c.eq(f'undone {i}', o.getS(fs[i]), Ms[i])

def rejected(c):
    """ports which are not there, or lines which are none: the table stays as it was, whatever else is in the request"""
    o, fs, Ms = mk(c, 2, 1, 'Hz', 30.)
    c.raises('unknown port', lambda: o.deembed({'zz': (.3, 20.)}), ValueError)
    c.raises('unknown port', lambda: o.deembed({'q1': .3}), ValueError)
    c.raises('no line', lambda: o.deembed({'q': 'x'}), ValueError)
    c.raises('no line', lambda: o.deembed({'q': (1., 2., 3.)}), ValueError)
    p, q = list(o.ports)
    for bad in ({p: .3, 'zz': .2}, {'zz': .2, q: (.3, 20.)}, {p: .3, q: 'x'}, {p: .2, q: None}, {p: .3, q: (1., 2., 3.)}):
        c.raises('one of the ports', lambda: o.deembed(bad), ValueError)
    c.eq('kept', o.getS(fs[0]), Ms[0])
    o.deembed({})
    c.eq('nothing', o.getS(fs[0]), Ms[0])

# --- circuits -------------------------------------------------------------
def circuit(c, k, rest, how, order=0, Zs=True, form='list', other=0, names=None):
    """a measured network with k ports behind the deembedded one and `rest` others; the deembedded network has k inner and k outer ports"""
    np = c.np
    Zb = c.pos('Zc', 5, 60)
    o = c.rf.rfCircuit(Zbase=Zb, Id='C')
    n = k+rest
    tp = ['e', 'g', 'h', 'r', 's', 't'][:k]+['x', 'y', 'z'][:rest]
    rng = random.Random(f'{k}/{rest}/{order}')
    if order: rng.shuffle(tp)
    St = c.cmat('T', n); Zt = c.pos('Zt', 5, 60) if Zs else Zb
    def addT():
        o.addblock('T', c.rf.rfBase(Ss=[St], fs=[ci.F], ports=list(tp), Zbase=Zt, Id='T'))
    laws = []          # (ports, S, Z) of the deembedded network
    inner, outer = [], []
    def addD():
        if how == 'one':
            ps = [f'i{j}' for j in range(k)]+[f'o{j}' for j in range(k)]
            if order: rng.shuffle(ps)
            Sd = c.cmat('D', 2*k); Zd = c.pos('Zd', 5, 60) if Zs else Zb
            o.addblock('D', c.rf.rfBase(Ss=[Sd], fs=[ci.F], ports=list(ps), Zbase=Zd, Id='D'))
            laws.append((['D.'+p for p in ps], Sd, Zd))
            inner.extend(f'D.i{j}' for j in range(k)); outer.extend(f'D.o{j}' for j in range(k))
        elif how == 'many':
            for j in range(k):
                Sd = c.cmat(f'D{j}', 2)
                if j % 2: o.addblock(f'D{j}', Sd, ports=['o', 'i']); Zd = Zb
                else: Zd = c.pos(f'Zd{j}', 5, 60); o.addblock(f'D{j}', c.rf.rfBase(Ss=[Sd], fs=[ci.F], ports=['u', 'v'], Zbase=Zd), ports={'u': 'o', 'v': 'i'})
                laws.append(([f'D{j}.o', f'D{j}.i'], Sd, Zd))
                inner.append(f'D{j}.i'); outer.append(f'D{j}.o')
        else:           # two blocks in series, joined through a new port or not
            Sd, Se = c.cmat('D', 1+k), c.cmat('E', k+k)
            Zd, Ze = c.pos('Zd', 5, 60), c.pos('Ze', 5, 60)
            o.addblock('D', c.rf.rfBase(Ss=[Sd], fs=[ci.F], ports=['j']+[f'i{j}' for j in range(k)], Zbase=Zd))
            o.addblock('E', c.rf.rfBase(Ss=[Se], fs=[ci.F], ports=['j']+[f'i{j}' for j in range(1, k)]+[f'o{j}' for j in range(k)], Zbase=Ze))
            o.connect('D.j', 'E.j')
            laws.append((['D.j']+[f'D.i{j}' for j in range(k)], Sd, Zd)); laws.append((['E.j']+[f'E.i{j}' for j in range(1, k)]+[f'E.o{j}' for j in range(k)], Se, Ze))
            laws.append(('D.j', 'E.j'))
            # k inner ports: of D (k of them) - the ones of E beyond the joint are joined to D's
            o2 = [(f'D.i{j}', f'E.i{j}', f'm{j}') for j in range(1, k)]
            for a, b, m in o2: o.connect(a, b, m); laws.append((a, b, m))
            inner.extend(['D.i0']+[m for _, _, m in o2]); outer.extend(f'E.o{j}' for j in range(k))
    (addD, addT)[other % 2](); (addT, addD)[other % 2]()
    if other > 1: o.getS(ci.F)            # evaluated before
    exts = [f'T.{p}' for p in tp if p in ('e', 'g', 'h', 'r', 's', 't')][:k]
    if order: rng.shuffle(exts)
    I = [(i, (names or ['m', 'a', 'zz'])[j]+('' if names else f'_{j}')) for j, i in enumerate(inner)]
    X = list(zip(outer, exts))
    if order: rng.shuffle(I); rng.shuffle(X)
    o.deembed(*(map(dict, (I, X)) if form == 'dict' else (I, X)))
    left = [p for p in (f'T.{q}' for q in tp) if p not in exts]
    c.eq('ports', sorted(o.ports), sorted(left+[q for _, q in I]))
    c.true('new ports in the order given', [p for p in o.ports if p in [q for _, q in I]] == [q for _, q in I])
    c.true('remaining ports in their order', [p for p in o.ports if p in left] == left)
    R = o.getS(ci.F)
    ps = list(o.ports)
    # put together again
    net = ci.Net(c); net.Zb = Zb
    for p in ps: net.port('R/'+p)
    net.law(['R/'+p for p in ps], R, Zb)
    for l in laws:
        if isinstance(l[0], list):
            for p in l[0]: net.port(p)
            net.law(*l)
    for l in laws:
        if isinstance(l[0], str): net.junction([l[0], l[1]], l[2] if len(l) > 2 else None)
    for i, q in I: net.junction([i, 'R/'+q])
    ext = dict((e, d) for d, e in X)
    free = [ext.get(f'T.{q}', f'R/T.{q}') for q in tp]
    c.eq('original', np.array(ci.refS(c, net, free, Zt), dtype=complex), St)
    # the same list of frequencies, another reference
    Z = c.pos('Zq', 5, 60)
    r = (Z-Zb)/(Z+Zb)
    N = len(ps)
    c.eq('other reference', o.getS(ci.F, Zbase=Z) @ (c.eye(N)-r*R), R-r*c.eye(N))

def rejectedc(c, how):
    """a circuit whose deembedding is rejected stays as it was, and can be deembedded afterwards"""
    o = c.rf.rfCircuit(Zbase=c.pos('Zc', 5, 60), Id='C')
    St, Sd = c.cmat('T', 3), c.cmat('D', 4)
    o.addblock('T', c.rf.rfBase(Ss=[St], fs=[ci.F], ports=['e', 'x', 'y'], Zbase=c.pos('Zt', 5, 60)))
    o.addblock('D', c.rf.rfBase(Ss=[Sd], fs=[ci.F], ports=['i', 'j', 'o', 'q'], Zbase=c.pos('Zd', 5, 60)))
    o.connect('D.j', 'T.x', 'm'); o.terminate('D.q', Z=c.pos('Zl', 5, 60))
    if how == 'evaluated': o.getS(ci.F)
    def state(): return list(o.ports), list(o.waves), o.getS(ci.F) if how != 'first' else c.np.array(o.M)
    was = state()
    for I, X in (([('D.i', 'n')], [('D.o', 'T.zz')]), ([('D.i', 'n')], [('D.zz', 'T.e')]), ([('D.zz', 'n')], [('D.o', 'T.e')]), ([('D.i', 'm')], [('D.o', 'T.e')]),
                 ([('D.i', 'T.e')], [('D.o', 'T.e')]), ([('D.i', 'D.j')], [('D.o', 'T.e')]), ([('D.j', 'n')], [('D.o', 'T.e')]), ([('D.i', 'n')], [('D.q', 'T.e')]),
                 ([('D.i', 'n')], [('D.o', 'T.x')]), ([('D.i', 'n'), ('m', 'n')], [('D.o', 'T.e'), ('T.y', 'T.e')]), ([('D.i', 'n')], [('D.o', 'D.o')]),
                 ([('D.i', 'n'), ('D.i', 'k')], [('D.o', 'T.e'), ('m', 'T.y')]), ([('D.i', 'n')], [('D.i', 'T.e')])):
        for form in (list, dict):
            if form is dict and (len(dict(I)) < len(I) or len(dict(X)) < len(X)): continue
            c.raises(f'{I} {X}', lambda: o.deembed(form(I), form(X)))
        now = state()
        c.eq('ports as they were', now[0], was[0])
        c.eq('S-matrix as it was' if how != 'first' else 'equations as they were', now[2], was[2])
    q = c.rf.rfCircuit(Zbase=o.Zbase, Id='C')
    q.addblock('T', o.blocks['T']['object']); q.addblock('D', o.blocks['D']['object'])
    q.connect('D.j', 'T.x', 'm'); q.terminate('D.q', **{'Z': c.pos('Zl', 5, 60)})
    for a in (o, q): a.deembed([('D.i', 'n')], [('D.o', 'T.e')])
    c.eq('deembedded afterwards', list(o.ports), list(q.ports))
    c.eq('deembedded afterwards', o.getS(ci.F), q.getS(ci.F))

def embedded(c, k, rest):
    """the other way round: embedding a known network and deembedding it"""
    Zb = c.pos('Zc', 5, 60)
    n = k+rest
    ps = [f'p{j}' for j in range(n)]
    Sr = c.cmat('R', n); Zr = c.pos('Zr', 5, 60)
    Sd = c.cmat('D', 2*k); Zd = c.pos('Zd', 5, 60)
    q = c.rf.rfCircuit(Zbase=c.pos('Zq', 5, 60), Id='Q')
    mkD = lambda: c.rf.rfBase(Ss=[Sd], fs=[ci.F], ports=[f'o{j}' for j in range(k)]+[f'i{j}' for j in range(k)], Zbase=Zd)
    q.addblock('R', c.rf.rfBase(Ss=[Sr], fs=[ci.F], ports=list(ps), Zbase=Zr)); q.addblock('D', mkD())
    for j in range(k): q.connect(f'D.i{j}', f'R.p{j}')
    o = c.rf.rfCircuit(Zbase=Zb, Id='C')
    o.addblock('T', q); o.addblock('D', mkD())
    o.deembed([(f'D.i{j}', f'n{j}') for j in range(k)], [(f'D.o{j}', f'T.D.o{j}') for j in range(k)])
    names = [f'n{j}' if j < k else f'T.R.p{j}' for j in range(n)]
    c.eq('ports', sorted(o.ports), sorted(names))
    G = o.getS(ci.F, Zbase=Zr)
    ix = [o.ports.index(p) for p in names]
    c.eq('restored', [[G[i, j] for j in ix] for i in ix], Sr)

def scenarios(tier):
    L = []; big = tier != 'quick'
    F = ['len', 'len-', 'tuple', 'tuple-', 'dict', 'dict-', 'int', 'int-', 'lossy', 'lossyZ', 'lossy-']
    for n in (1, 2, 3, 4) if big else (1, 2, 3):
        for r in range(1, n+1):
            for i, ps in enumerate(itertools.permutations(NAMES[:n], r)):
                if r > 2 and not big and i % 3: continue
                for j, f in enumerate(F):
                    if r > 1 and j != (i*3+r) % len(F) and j != (i*5+n) % len(F): continue
                    if n == 3 and r == 1 and j % 2 != i % 2 and not big: continue
                    forms = {p: (f if r == 1 else F[(j+4*k) % len(F)]) for k, p in enumerate(ps)}
                    m = 1 if r > 1 or 'lossy' in f else 1+(i+j) % 3
                    u = list(U)[(i+j) % 4]
                    order = [list(range(m)), list(reversed(range(m)))][j % 2]
                    L.append(S(f'table {n} {"/".join(p+":"+x for p, x in forms.items())}', table, dict(n=n, m=m, forms=forms, unit=u, order=order), target=T, conc=2, bounded=True))
    for u in U: L.append(S(f'table between {u}', table, dict(n=2, m=2, forms={'B': 'tuple'}, unit=u, order=[1, 0], inter=True), target=T+',rfObject._interp_', conc=2))
    L.append(S('rejected', rejected, target=T, conc=2))
    for h in ('first', 'evaluated', 'solved'): L.append(S('rejected circuit '+h, rejectedc, dict(how=h), target=TC, conc=2))
    ks = [(1, 0), (1, 1), (1, 2), (2, 0), (2, 1)]+([(3, 0), (2, 2), (3, 1), (1, 3)] if big else [(2, 2)])
    i = 0
    for k, rest in ks:
        for how in ('one', 'many', 'series'):
            for order in (0, 1, 2):
                i += 1
                L.append(S(f'circuit {k} {rest} {how} {order}', circuit, dict(k=k, rest=rest, how=how, order=order, Zs=bool((i+k) % 4), form=('list', 'dict')[i % 2], other=i % 4), target=TC, conc=2))
    for k, rest in ks: L.append(S(f'embedded {k} {rest}', embedded, dict(k=k, rest=rest), target=TC, conc=2))
    # beyond the proved sizes: concrete only
    for i in range(24 if not big else 200):
        rng = random.Random(f'c13/large/{i}')
        n, m = rng.randint(4, 9), rng.randint(2, 12)
        ps = rng.sample(NAMES[:n], rng.randint(2, n)); od = list(range(m)); rng.shuffle(od)
        L.append(S(f'large table {i}', table, dict(n=n, m=m, forms={p: rng.choice(F) for p in ps}, unit=rng.choice(list(U)), order=od), target=T, sym=False, conc=1))
        k, rest = rng.randint(2, 6), rng.randint(0, 3)
        L.append(S(f'large circuit {i}', circuit, dict(k=k, rest=rest, how=('one', 'many', 'series')[i % 3], order=i, Zs=bool(i % 4), form=('list', 'dict')[i % 2], other=i % 4, names=['p', '10', '9', 'B', 'a', 'zz'] if i % 2 else ['m', 'a', 'zz', 'B', 'q', 'x10']), target=TC, sym=False, conc=1))
        L.append(S(f'large embedded {i}', embedded, dict(k=k, rest=rest), target=TC, sym=False, conc=1))
    return L
