"""C05 history independence"""
import copy as _copy
from vc.api import S
from . import _world as w
LEVEL = 'other'
BOUNDS = ('circuits of up to 3 blocks per level, 3 levels and about 8 ports and single tables, lines and lumped elements; histories of up to 9 actions (ports terminated before and after the circuit is extended, one object placed several times and replaced at depth, flags that change, everything handed out overwritten by the caller); '
          'all numbers (S-matrices, elements, lengths, impedances, terminations, excitations) symbolic'
          '; `any history`: the same circuits without a bound on the history (an invariant of the state of the objects is re-established by every action); concrete runs only (bounded, not proved): circuits of 6 or more blocks per level, histories of 25 and more actions')
EXPLANATION = ('a history of evaluations and changes is executed on one object while its description is edited; after every evaluation the result is proved equal, '
               'for all values, to that of a new object built from the description, and a repetition gives the same result. In the contracts `any history` the object starts in an arbitrary state that satisfies the invariant '
               '(structural rows of M those of a new circuit, S absent or that of a new circuit at the remembered frequency, invM the inverse, solutions of lines those of new lines; everything else arbitrary numbers), one action is applied, '
               'its answer is that of a new object and the invariant holds again. They depend on internals and only strengthen the proof: they never raise an alarm.')
T = ('rfCircuit.getS,rfCircuit.extS,rfCircuit.set,rfCircuit.addblock,rfCircuit.terminate,rfCircuit.connect,rfCircuit._reopen_,rfCircuit.Solution,rfCircuit.maxV,rfRLC.set,rfRLC.getS,'
     'rfTRL.set,rfTRL.getS,rfTRL.solveVI,rfObject.setS,rfObject.__setitem__,rfObject.getS,rfBase.getS,rfBase.set')

def overwrite(x):
    """the caller does what it wants with what it was given"""
    if isinstance(x, dict):
        for k in list(x): overwrite(x[k]); x[k] = 7.
    elif isinstance(x, list):
        for k in range(len(x)): overwrite(x[k]); x[k] = 7.
    elif isinstance(x, tuple):
        for y in x: overwrite(y)
    elif hasattr(x, 'shape') and len(x.shape): x[...] = 7.

def run(c, d, hist, repeat=True, over=True):
    v = w.Vals(c)
    d = _copy.deepcopy(d)
    o = w.make(c, v, d)
    for n, a in enumerate(hist+w.observe(o, d)):
        if a[0] in w.EVALS:
            r, x = w.both(c, v, d, o, a)
            c.eq(f'{n} {a[0]} as of a new object', r, x)
            b = ('getS', a[1], None, None) if a[0] == 'params' else a
            if over and n % 2 and n % 3 == 0:
                p = _copy.deepcopy(r); overwrite(r); r = p
            if repeat and n % 3 == 0: c.eq(f'{n} {a[0]} repeated', r, w.act(c, v, d, o, b))
            if over: overwrite(r)
        else:
            r = w.act(c, v, d, o, a)
            if a[0] == 'set': c.true(f'{n} set reports', r[1])

def handed(c, kind):
    """what an object hands out is the caller's: changing it changes nothing in the object"""
    rf = c.rf
    f1, f2 = 30e6, 50e6; F = (f1, f2)
    E = {p: c.cplx('a'+p) for p in 'ab'}
    if kind == 'table':
        mk = lambda: rf.rfBase(Ss=[c.cmat('S', 2), c.cmat('T', 2)], fs=list(F), ports=['a', 'b'], Zbase=30.)
    elif kind == 'object':
        def mk():
            o = rf.rfObject(ports=['a', 'b'], Zbase=30., interp='RI', interpkws={'kind': 1, 'fill_value': 'extrapolate'})
            o.setS(f1, c.cmat('S', 2)); o.setS(f2, c.cmat('T', 2)); return o
    elif kind == 'line': mk = lambda: rf.rfTRL(L=c.pos('L', .2, 1.9), Z0TL=c.pos('Z', 10, 90), ports=['a', 'b'], dx=-2.)
    elif kind == 'coupler':
        mk = lambda: rf.rfCoupler(kc=.3, f0Hz=f1, ports=['a', 'b', 'c', 'd']); E.update((p, c.cplx('a'+p)) for p in 'cd')
    else: mk = lambda: rf.rfRLC(Rs=c.pos('Rs'), Cp=c.pos('Cp')*1e-10, ports=['a', 'b'])
    if c.symbolic and kind == 'line': c.assume(c.pos('L', .2, 1.9) < 2.)
    o, y = mk(), mk()
    reqs = [lambda x: x.getS(f1), lambda x: x.getS(f2), lambda x: x.getS(list(F)), lambda x: x.getS(f1, Zbase=20.), lambda x: x.getS(f1, Zbase=x.Zbase), lambda x: list(x.maxV(f1, dict(E))[2:]),
            lambda x: list(x.maxV(f1, dict(E), Zbase=20.)[2:])]
    if kind == 'object': reqs += [lambda x: x[0][1], lambda x: x.getS((f1+f2)/2), lambda x: [M for f, M in x]]
    if kind == 'line': reqs += [lambda x: x.VISWs(f1, dict(E)), lambda x: x.VISWs(f1, dict(E), 20.), lambda x: x.solveVI(f1, V0=1., I0=.1), lambda x: x.solveVI(f1)]
    def flat(x): return [t for k in (x.values() if isinstance(x, dict) else x) for t in flat(k)] if isinstance(x, (dict, list, tuple)) else [x]
    for rnd in (0, 1):
        for i, q in enumerate(reqs):
            with c.onepath(): a, b = q(o), q(y)
            a_, b_ = flat(a), flat(b)
            for s, t in zip(a_, b_): c.eq(f'{i}', s, t)
            overwrite(a)
            if i: 
                with c.onepath(): overwrite(reqs[i-1](o))

def flags(c, depth, seq):
    """a model holding measured data inside a circuit; the dictionary of flags is the caller's and changes between requests"""
    from .c21 import write
    rf = c.rf
    f = 40e6
    X = c.cmat('S', 2)
    R, Zl, Z0 = c.pos('R', 20, 70), c.pos('Zl', 10, 90), c.pos('Zb', 5, 60)
    num = lambda x: f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        t = '! m\n# HZ S RI R '+num(R)+'\n'+' '.join([num(f)]+[num(v) for z in X.T.flat for v in (c.np.real(z), c.np.imag(z))])+'\n'
    with open("d5.s2p", "w") as g_: g_.write(t)
    name = write(c, {'M': {'Portnames': ['out', 'in'], 'sNp': 'd5.s2p', 'GTL': {'A': {'Portnames': ['in', 'out'], 'Z0TL': Zl, 'L': 1.3}}}}, 'c5.mod')
    Ls = c.pos('Ls')*1e-7
    def mk():
        o = rf.rfGTL(name, objkey='M', Zbase=Z0)
        for k in range(depth):
            q = rf.rfCircuit(Id=f'C{k}', **({'Zbase': Z0} if k else {})); q.addblock('B', o)
            if not k: q.addblock('R', rf.rfRLC(Ls=Ls)); q.connect('R.p', 'B.in')
            o = q
        return o
    o = mk(); fl = {}
    E = {}
    for n, (k, what) in enumerate(seq):
        if k is None: fl.pop('sNp', None)
        else: fl['sNp'] = k
        y = mk()
        if not E: y.getS(f); E.update((p, c.cplx('a'+p)) for p in y.ports)
        if what == 'sol': g = lambda x, l: [x.Solution(f, dict(E), flags=l)[p] for p in E]
        else: g = lambda x, l: x.getS(f, flags=l)
        c.eq(f'{n} {what} {k} as of a new object', g(o, fl), g(y, dict(fl)))

def shared(c, depth, order):
    """one object placed several times in a circuit: replacing a block by its path changes that one only"""
    rf = c.rf
    names = 'JKL'[:depth-1]
    Ss = [c.cmat(f'S{k}', 2) for k in range(4)]; X = c.cmat('X', 2); Z = c.pos('Z', 5, 60)
    tab = lambda M, nm: rf.rfBase(Ss=[M], fs=[w.F1], ports=['a', 'b'], Id=nm)
    def inner(M):
        o = tab(M, 'q')
        for k, n in enumerate('q'+names):
            t = rf.rfCircuit(Id='I'+n, Zbase=Z); t.addblock(n, o); t.addblock('y', tab(X, 'y')); t.connect('y.a', t.ports[1], f'k{k}') if k % 2 else t.connect('y.a', t.ports[1]); o = t
        return o
    path = '.'.join(names[::-1]+'q')
    def mk(Ms, share):
        o = rf.rfCircuit(Id='C', Zbase=Z)
        I = inner(Ms[0]) if share else None
        for n, M in zip('NMP', Ms): o.addblock(n, I if share else inner(M))
        ps = [[p for p in o.ports if p.startswith(n+'.')] for n in 'NMP']
        o.connect(ps[0][1], ps[1][0], 'n'); o.connect(ps[1][1], ps[2][0])
        return o, I
    o, I = mk([Ss[0]]*3, True)
    now = [Ss[0]]*3
    first = I.getS(w.F1)
    def check(n):
        x = mk(now, False)[0]
        c.eq(f'{n} getS', o.getS(w.F1), x.getS(w.F1))
        E = {p: c.cplx(f'e{k}') for k, p in enumerate(o.ports)}
        a, b = o.Solution(w.F1, dict(E)), x.Solution(w.F1, dict(E))
        c.eq(f'{n} keys', sorted(a), sorted(b)); c.eq(f'{n} solution', [a[k] for k in sorted(a)], [b[k] for k in sorted(a)])
    check('before')
    for n, k in enumerate(order):
        now = list(now); now[k] = Ss[n+1]
        o.addblock('NMP'[k]+'.'+path, tab(Ss[n+1], f'r{n}'))
        check(f'replaced {n}')
    c.eq('the object placed is as it was', I.getS(w.F1), first)

def reopened(seed, count):
    """the circuit is evaluated, terminated at an external port, evaluated, extended, evaluated and terminated otherwise at that port"""
    import random
    out, i = [], 0
    while len(out) < count:
        rng = random.Random(f'{seed}/re/{i}'); i += 1
        K = w.Keys()
        d = w.gen(rng, K, depth=rng.choice((0, 0, 1)), keep=5, nb=rng.choice((2, 3)))
        if d['pn'] or not 3 <= len(w.free(d)) <= 7: continue
        K.n = 1000+K.n
        e = _copy.deepcopy(d); h = []
        def do(a): w.sim(e, a); h.append(a)
        def term(p): do(('op', ('t', p, rng.choice(['Z', 'Y', 'RC', 'D']), K.new())))
        ev = lambda: do(rng.choice([('getS', w.F1, None, None), ('sol', w.F1, None, None), ('getS', w.F2, 1, None)]))
        ev()
        ts = [rng.choice(w.free(e))]; term(ts[0])
        if rng.random() < .4 and len(w.free(e)) > 3: ts.append(rng.choice(w.free(e))); term(ts[1])
        if rng.random() < .7: ev()
        for _ in range(rng.randint(1, 2)):
            l = rng.sample(w.free(e), min(2, len(w.free(e))))
            n = sum(x[0] == 'c' for x in e['seq'])
            if rng.random() < .6 and len(l) == 2 and not w.loops(e, l): do(('op', ('c',)+tuple(l)+((f'n{n}',) if len(w.free(e)) < 4 or rng.random() < .5 else ())))
            elif len(e['blocks']) < 4:
                x = w.gen_leaf(rng, K, ('rlc', 'trl', 'tab', 'arc'))
                do(('op', ('b', 'WVUT'[len(e['blocks'])-1]), w.gen_block(rng, K, x, w.KINDS), f'A{K.new()}'))
            if rng.random() < .5: ev()
        for p in ts[::-1]:
            term(p); ev()
        if len(w.free(e)) > 1: p = rng.choice(w.free(e)); term(p); ev(); term(p)
        if not w.free(e): continue
        out.append((d, h))
    return out

def replparams(c, depth, ev, par, more):
    """blocks placed with parameters for their evaluation; another block is replaced by its path, with parameters or without"""
    rf = c.rf
    R, R2, Rx, Rn, Rp, Ro = (c.pos(n) for n in ('R', 'R2', 'Rx', 'Rn', 'Rp', 'Ro'))
    X = c.cmat('X', 2)
    def inner(Ri, x, px):
        A = rf.rfCircuit(Id='A'); A.addblock('R', rf.rfRLC(Rs=Ri, Id='r')); A.addblock('X', x, params=px); A.addblock('Y', X, ports=['1', '2'])
        A.connect('R.p', 'X.s', 'm'); A.connect('X.p', 'Y.1')
        return A
    def mk(now):
        q = inner(R2 if now else R, rf.rfRLC(Rs=(Rp if par else Rn) if now else Rx, Id='n'), {})
        for k in range(depth):
            o = rf.rfCircuit(Id=f'C{k}', Zbase=30.+k)
            n = 'JKL'[k]
            pr = {} if now else {'R': {'Rs': R2}} if k == 0 else {'JKL'[k-1]: {}}
            o.addblock(n, q, **({'params': pr} if k == 0 and not now else {}))
            if more: o.addblock('Q', rf.rfRLC(Rs=Ro)); o.connect('Q.s', o.ports[0])
            q = o
        return q
    o = mk(False)
    if ev: o.getS(w.F1)
    path = '.'.join('JKL'[:depth][::-1])+'.X'
    o.addblock(path, rf.rfRLC(Rs=Rn, Id='new'), **({'params': {'Rs': Rp}} if par else {}))
    y = mk(True)
    for f in (w.F1, w.F2): c.eq('as built by hand', o.getS(f), y.getS(f))

# --- any history: the invariant of an object, and one action from every state that satisfies it ---------------
def isz(x):
    from vc.term import lift, ZERO
    return lift(x) is ZERO
def circ(o): return hasattr(o, 'blocks') and hasattr(o, 'invM')

def havoc(c, v, o, mode, pre):
    """puts the object into a state that satisfies the invariant; the numbers a former evaluation left are arbitrary"""
    if circ(o):
        for n, b in o.blocks.items():
            m = mode if mode != 'mixed' else ('dirty', 'none', 'clean')[(len(pre)+len(n)+len(o.blocks)) % 3]
            havoc(c, v, b['object'], m, f'{pre}{n}_')
        if mode == 'none': return
        try: o.getS(v.f(w.F2 if mode == 'clean2' else w.F1))
        except c.np.linalg.LinAlgError: c.assume(False)
        if mode == 'dirty' or mode == 'mixed':
            for n, b in o.blocks.items():
                i, j = b['loc']; N = len(b['ports'])
                o.M[i:i+N, j:j+N] = c.cmat(f'M{pre}{n}', N)
            o.S = None; o.invM = c.cmat(f'I{pre}', o.M.shape[0]) if mode == 'mixed' else None
            o.f = c.pos(f'g{pre}', 25, 70)*1e6 if mode == 'mixed' else v.f(w.F2)
        if mode == 'clean' and len(pre) % 2:
            # the objects inside have been asked since
            for b in o.blocks.values():
                if hasattr(b['object'], 'getS'): b['object'].getS(v.f(w.F2), Zbase=v.get('Zb', 2))
    elif hasattr(o, 'getS'):
        if mode == 'none': return
        for f in ((w.F2,) if mode == 'clean2' else (w.F1, w.F2)): o.getS(v.f(f), **({} if mode == 'dirty' else {'Zbase': v.get('Zb', 1)}))
        if hasattr(o, 'Rs'):          # lumped elements remember the last request only
            o.f = c.pos(f'g{pre}', 25, 70)*1e6; o.S = c.cmat(f'S{pre}', 2)

def rows(o):
    """equations of a circuit that do not depend on its blocks, by the waves they hold"""
    n = sum(len(b['ports']) for b in o.blocks.values())
    return sorted(([(o.waves[k], x) for k, x in enumerate(r) if not isz(x)] for r in o.M[n:]), key=lambda r: [t[0] for t in r])

def invariant(c, v, d, o, label):
    """the part of the state that later answers are made of is that of a new object"""
    n = w.plain(_copy.deepcopy(d)); y = w.make(c, v, n, 'J')
    if not circ(o): return inner(c, v, o, y, label)
    for p, b in o.blocks.items():
        if hasattr(b['object'], 'getS'): inner(c, v, b['object'], y.blocks[p]['object'], f'{label} {p}', b['params'])
    whole(c, v, o, y, label)

def whole(c, v, o, y, label):
    if o.E and not y.E: y.getS(o.f if o.S is not None else v.f(w.F1))
    c.eq(f'{label}: waves', list(o.waves), list(y.waves))
    c.eq(f'{label}: ports', [list(o.ports), sorted(o.E), sorted(o.T)], [list(y.ports), sorted(y.E), sorted(y.T)])
    a, b = rows(o), rows(y)
    if (o.E != {}) == (y.E != {}):
        c.eq(f'{label}: equations', [[t[0] for t in r] for r in a], [[t[0] for t in r] for r in b])
        if [[t[0] for t in r] for r in a] == [[t[0] for t in r] for r in b]:
            c.eq(f'{label}: their numbers', [t[1] for r in a for t in r], [t[1] for r in b for t in r])
    for p in o.E: c.eq(f'{label}: equation of {p}', [k for k, x in enumerate(o.M[o.E[p]]) if not isz(x)], [o.waves.index('->'+p)])
    for p, (i, j, k) in o.T.items(): c.eq(f'{label}: termination of {p}', [o.waves[i], o.waves[j], o.M[k, j]], ['->'+p, '<-'+p, y.M[y.T[p][2], y.T[p][1]]])
    if o.S is not None:
        c.eq(f'{label}: S', o.S, y.getS(o.f, flags=dict(o.flags)))
        if o.invM is not None: c.eq(f'{label}: inverse', o.M@o.invM, c.eye(o.M.shape[0]))

def inner(c, v, o, y, label, par=()):
    if circ(o):
        for p, b in o.blocks.items():
            if hasattr(b['object'], 'getS'): inner(c, v, b['object'], y.blocks[p]['object'], f'{label} {p}', b['params'])
        return whole(c, v, o, y, label)
    if hasattr(o, 'solved'):
        for f, q in o.solved.items():
            z = y.getS(f); e = y.solved[f]
            c.eq(f'{label}: solved', [q['S'], q['xs'], q['VI']], [z, e['xs'], e['VI']])
    c.eq(f'{label}: base', o.Zbase, y.Zbase)
    for a in ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp', 'L', 'Larc'):
        if hasattr(o, a) and hasattr(y, a) and a not in par: c.eq(f'{label}: {a}', getattr(o, a), getattr(y, a))

def induct(c, d, a, mode, cut):
    """one action from every state that satisfies the invariant: the answer is that of a new object, and the invariant holds again"""
    if not c.symbolic: return
    v = w.Vals(c); d = _copy.deepcopy(d)
    if cut is None: o = w.make(c, v, d)
    else:
        # evaluated while it was being built
        e = _copy.deepcopy(d); e['seq'] = d['seq'][:cut]; e['pn'] = None
        o = w.make(c, v, e)
        try: o.getS(v.f(w.F1))
        except c.np.linalg.LinAlgError: c.assume(False)
        for q in d['seq'][cut:]: w.step(c, v, d, o, q, 'O', w.PLAIN)
    havoc(c, v, o, mode, 'h')
    invariant(c, v, d, o, 'before')
    if a[0] in w.EVALS:
        if a[0] == 'params': w.sim(d, a); r = w.act(c, v, _copy.deepcopy(d), o, a); x = w.fresh(c, v, d, ('getS', a[1], None, None))
        else: r, x = w.both(c, v, d, o, a)
        c.eq(f'{a[0]} as of a new object', r, x)
    else: w.act(c, v, d, o, a)
    invariant(c, v, d, o, 'after')

def inductions(seed, count):
    import random
    out, i, ev = [], 0, 0
    while len(out) < count:
        rng = random.Random(f'{seed}/ind/{i}'); i += 1
        K = w.Keys()
        d = w.gen(rng, K, depth=rng.choice((0, 1, 1, 2)))
        if w.size(d) > 8 or not w.free(d): continue
        K.n = 1000+K.n
        a = w.gen_action(rng, K, d, evals=.4, maxv=False)
        if a[0] == 'op' and a[1][0] in 'bc' and w.size(d) > 7: continue
        cut = rng.randrange(1, len(d['seq'])) if rng.random() < .4 and len(d['seq']) > 1 and not d['pn'] else None
        if cut is not None:
            e = _copy.deepcopy(d); e['seq'] = d['seq'][:cut]; e['blocks'] = {n: b for n, b in d['blocks'].items() if ('b', n) in e['seq']}
            if not w.free(e): cut = None
        out.append((d, a, rng.choice(('dirty', 'dirty', 'mixed', 'clean', 'clean', 'clean2', 'none')), cut))
    return out

def scenarios(tier):
    L = []
    q = tier == 'quick'
    for i, (d, h) in enumerate(w.worlds('c05', 250 if q else 2500, 7 if q else 9)):
        L.append(S(f'circuit {i}', run, dict(d=d, hist=h), target=T, conc=2, maxpaths=12))
    for t in ('obj', 'trl', 'rlc', 'arc', 'tab'):
        for i, (d, h) in enumerate(w.worlds('c05'+t, 20 if q else 200, 7, root=t)):
            L.append(S(f'{t} {i}', run, dict(d=d, hist=h), target=T, conc=2, maxpaths=12))
    for t in ('gtl', 'in'):
        for i, (d, h) in enumerate(w.worlds('c05'+t, 15 if q else 150, 5, root=t)):
            L.append(S(f'model {t} {i}', run, dict(d=d, hist=h), target=T+',rfGTL.__init__,rfGTL.getS', conc=2, maxpaths=12))
    for i, (d, h) in enumerate(reopened('c05', 40 if q else 400)):
        L.append(S(f'reopened {i}', run, dict(d=d, hist=h, repeat=False), target=T, conc=2, maxpaths=12))
    for depth in (1, 2, 3):
        for order in ((0,), (1, 0), (2, 0, 2)): L.append(S(f'shared {depth} {order}', shared, dict(depth=depth, order=order), target=T, conc=2, maxpaths=12))
    for depth in (1, 2, 3):
        for ev in (0, 1):
            for par in (0, 1): L.append(S(f'replaced with parameters {depth} {ev} {par}', replparams, dict(depth=depth, ev=ev, par=par, more=(depth+par) % 2), target=T, conc=2, maxpaths=12))
    for depth in (1, 2):
        for i, seq in enumerate([((False, 'getS'), (True, 'getS'), (False, 'sol')), ((None, 'getS'), (False, 'getS'), (None, 'getS')), ((True, 'sol'), (False, 'sol'), (True, 'getS'))]):
            L.append(S(f'flags {depth} {i}', flags, dict(depth=depth, seq=seq), target=T+',rfGTL.getS', conc=2, maxpaths=12))
    for k in ('table', 'object', 'line', 'coupler', 'rlc'): L.append(S(f'handed out {k}', handed, dict(kind=k), target='rfBase.getS,rfBase.get1S,rfObject.getS,rfObject.__getitem__,rfTRL.solveVI,rfTRL.VISWs,rfTRL.maxV,rfBase.maxV,rfRLC.maxV', conc=2, maxpaths=12))
    from .c15 import measured
    for i, h in enumerate((('S', 1), ('V', 1), ('S', 0))):
        for d in (0, 1): L.append(S(f'measured maximum {i} {d}', measured, dict(depth=d, hist=[h, ('D', 0)][:1+i % 2]), target='rfCircuit.maxV,rfGTL.getS,rfGTL.getSgtl', conc=2, sym=False))
    for i, (d, h) in enumerate(w.bigs('c05', 36 if q else 300, 36)):
        L.append(S(f'large {i}', run, dict(d=d, hist=h), target=T, sym=False, conc=1))
    for i, (d, a, mode, cut) in enumerate(inductions('c05', 160 if q else 1600)):
        L.append(S(f'any history {i} {mode} {a[0]}', induct, dict(d=d, a=a, mode=mode, cut=cut), target=T, conc=0, maxpaths=12, soft=True))
    return L
