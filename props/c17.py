"""C17 set by path"""
import copy as _copy, random
from vc.api import S
from . import _world as w
LEVEL = 'other'
BOUNDS = ('circuits of up to 3 blocks per level and 4 levels; up to 4 attributes per call, 10 forms of the call, sequences of up to 4 calls with evaluations between; '
          'all values symbolic'
          '; concrete runs only (bounded, not proved): circuits of 6 or more blocks per level, long sequences of calls')
EXPLANATION = ('after each call of set on a circuit, in every documented form, the attributes of every object at every depth are proved to be the requested or former ones, '
               'the value returned tells whether one changed, and S and solutions equal those of a new circuit built with the values; meaningless calls raise and leave '
               'results consistent with the attributes.')
T = 'rfCircuit.set,rfBase.set,rfRLC.set,rfTRL.set,rfArcObj.__init__,rfCircuit.getS,rfTRL.getS,rfRLC.getS,rfCircuit.getpos'
FORMS = w.FORMS+('mid', 'mix', 'dictd', 'two')

def call(c, v, form, items):
    """args, kwargs"""
    if form in w.FORMS: return w.setargs(c, v, form, items)
    val = lambda a, k: w.num(v, a, k)
    if form == 'two':      # part positional, part keyword
        h = len(items)//2
        a = w.setargs(c, v, 'pos', items[:h])[0]
        rest = [i for i in items[h:]]
        return a, (w.setargs(c, v, 'kw', rest)[1] if rest else {})
    if form == 'mid':      # the top block by name, a nested dictionary below
        kw = w.setargs(c, v, 'kw', items)[1]
        return [x for k, m in kw.items() for x in (k, m)], {}
    if form == 'dictd':    # one dictionary of paths to dictionaries
        by = {}
        for p, a, k in items: by.setdefault(p, {})[a] = val(a, k)
        return [by], {}
    if form == 'mix':      # pairs, tuples and dictionaries in one call
        out = []
        for n, (p, a, k) in enumerate(items):
            if n % 3 == 0: out += [f'{p}.{a}', val(a, k)]
            elif n % 3 == 1: out.append((f'{p}.{a}', val(a, k)))
            else: out.append({f'{p}.{a}': val(a, k)})
        return out, {}

def obj(o, path):
    for n in path.split('.'): o = o.blocks[n]['object']
    return o
def leaves(d, pre=''):
    for n, b in d['blocks'].items():
        p = f'{pre}.{n}' if pre else n
        if b['d']['t'] == 'circ': yield from leaves(b['d'], p)
        elif b['d']['t'] in w.SET: yield p, b['d'], b['par']
DEFAULT = {'Rs': 0., 'Ls': 0., 'Cs': 1e12, 'Rp': 1e12, 'Lp': 1e12, 'Cp': 0.}

def attrs(c, v, o, d, tag):
    for p, e, par in leaves(d):
        x = obj(o, p)
        for a in w.SET[e['t']]:
            if a in par: continue      # given with the block at every request
            if a in e['el']: c.eq(f'{tag}: {p}.{a}', getattr(x, a), w.num(v, a, e['el'][a]))
            elif e['t'] == 'rlc': c.true(f'{tag}: {p}.{a} absent', plain(getattr(x, a)))
        if e['t'] == 'trl': c.eq(f'{tag}: {p} position', [x.xpos[1]-x.xpos[0]], [w.num(v, 'L', e['el']['L'])])
def plain(x):
    try: return float(x) in (0., 1e12) or float(x) > 1e10
    except Exception: return False

def run(c, d, sets):
    v = w.Vals(c)
    d = _copy.deepcopy(d)
    o = w.make(c, v, d)
    for n, (form, items, ev) in enumerate(sets):
        if ev:
            r, x = w.both(c, v, d, o, ev)
            c.eq(f'{n} before', r, x)
        ch = False
        for p, a, k in items:
            e = w.leaf(d, p)['el']
            ch |= e.get(a) != k; e[a] = k
        ar, kw = call(c, v, form, items)
        r = o.set(*ar, **kw)
        c.true(f'{n} {form} reports', bool(r) == ch)
        attrs(c, v, o, d, f'{n} {form}')
        for a in (('getS', w.F1, None, None), ('getS', w.F2, 1, None), ('sol', w.F1, None, None), ('meta',)):
            r, x = w.both(c, v, d, o, a)
            c.eq(f'{n} {form} {a[0]}', r, x)

def found(c, d, k):
    """the paths are those of listBlocks, and they lead to the block itself"""
    v = w.Vals(c)
    o = w.make(c, v, _copy.deepcopy(d))
    def walk(x, pre=''):
        for n, b in x.blocks.items():
            yield pre+n, b['object']
            if hasattr(b['object'], 'blocks'): yield from walk(b['object'], pre+n+'.')
    A = list(walk(o))
    c.true('every block listed once', sorted(o.listBlocks()) == sorted(p for p, _ in A))
    c.true('and those described', sorted(w.paths(d)) == sorted(p for p, _ in A))
    for p, x in A:
        c.true(f'findObj {p}', o.findObj(p) is x)
        c.true(f'object {p}', o.object(p) is x)
        for q in (p+'.Nope', 'Nope.'+p, p+'x'):
            c.true(f'findObj {q}', o.findObj(q) is None)
            c.raises(f'object {q}', lambda: o.object(q))
    c.true('findObj of itself', o.findObj('') is o)

def bad(c, d, items, kind, form, first=False):
    """a call that cannot be fulfilled raises; what the later answers are is still what the attributes say"""
    v = w.Vals(c)
    d = _copy.deepcopy(d)
    o = w.make(c, v, d)
    w.both(c, v, d, o, ('getS', w.F1, None, None))
    o.getS(v.f(w.F1))
    ps = [p for p, e, _ in leaves(d)]
    good = call(c, v, form, items)
    p, e = (items[0][0] if items else ps[0] if ps else ''), None
    if kind == 'block': ar, kw = list(good[0])+['Nope.L', 1.], good[1]
    elif kind == 'deep': ar, kw = list(good[0])+[p+'.Nope.L', 1.], good[1]
    elif kind == 'attr': ar, kw = list(good[0])+[p+'.nope', 1.], good[1]
    elif kind == 'internal': ar, kw = list(good[0])+[p+'.portsx', 1.], good[1]
    elif kind == 'nopath': ar, kw = list(good[0])+['L', 1.], good[1]
    elif kind == 'odd': ar, kw = list(good[0])+['B.L'], good[1]
    elif kind == 'noset':
        q = [n for n in w.paths(d) if w.leaf(d, n)['t'] in ('tab', 'arr')]
        ar, kw = list(good[0])+[q[0]+'.L', 1.], good[1]
    elif kind == 'half':
        # one object gets values and something it does not have
        m = {a: w.num(v, a, k) for q, a, k in items if q == p}; m['nope'] = 1.
        n, _, r = p.partition('.')
        ar, kw = {'pos': ([p, m], {}), 'tup': ([(p, m)], {}), 'pdict': ([n, {f'{r}.{a}' if r else a: x for a, x in m.items()}], {}), 'mix': ([], {n: {r: m} if r else m})}[form]
    if first and kind != 'half': k = len(good[0]); ar = ar[k:]+ar[:k]
    c.raises(f'{kind} raises', lambda: o.set(*ar, **kw))
    for p, e, _ in leaves(d):
        x = obj(o, p)
        for a, k in list(e['el'].items()):
            new = [i[2] for i in items if i[0] == p and i[1] == a]
            now = getattr(x, a)
            if new and new[0] != k and same(c, now, w.num(v, a, new[0])): e['el'][a] = new[0]
        for q, a, k in items:
            if q == p and a not in e['el'] and same(c, getattr(x, a), w.num(v, a, k)): e['el'][a] = k
    attrs(c, v, o, d, kind)
    for a in (('getS', w.F1, None, None), ('sol', w.F2, None, None)):
        r, x = w.both(c, v, d, o, a)
        c.eq(f'{kind} {a[0]}', r, x)
def same(c, x, y): return x is y or (not c.symbolic and x == y)

def trouble(c, kind):
    rf = c.rf
    L = c.pos('L', .2, 1.9)
    if kind == 'tapered':
        t = rf.rfTRL(L=1., Z0TL=[30., 40.], dx=.2)
        c.raises('a tapered line cannot be changed', lambda: t.set(L=2.))
        o = rf.rfCircuit(); o.addblock('T', t)
        c.raises('nor in a circuit', lambda: o.set('T.L', 2.))
    if kind == 'table':
        b = rf.rfBase(Ss=[c.cmat('S', 1)], fs=[w.F1], ports=['a'])
        for k in ('ports', 'S', 'Zbase', 'nope'): c.raises(f'table {k}', lambda: b.set(**{k: 1}), ValueError)
    if kind == 'rlc':
        r = rf.rfRLC(Ls=1e-7)
        for k in ('nope', 'ports', 'f', 'set'): c.raises(f'rlc {k}', lambda: r.set(**{k: 1}), ValueError)
    if kind == 'arc':
        a = rf.rfArcObj(1e-8, ports=['x'])
        for k in ('nope', 'Rs'): c.raises(f'arc {k}', lambda: a.set(**{k: 1}), ValueError)
    if kind == 'coupler':
        a = rf.rfCoupler(kc=.3, f0Hz=w.F1)
        for k in ('nope',): c.raises(f'coupler {k}', lambda: a.set(**{k: 1}), ValueError)
    if kind == 'trl':
        t = rf.rfTRL(L=L, Z0TL=40., dx=-2.)
        c.raises('trl nope', lambda: t.set(nope=1), ValueError)
        c.eq('nothing to set', [bool(t.set()), bool(t.set(L=L))], [False, False])
    if kind == 'empty':
        o = rf.rfCircuit(); o.addblock('T', rf.rfTRL(L=L, Z0TL=40., dx=-2.))
        c.eq('nothing to set', [bool(o.set()), bool(o.set({})), bool(o.set('T', {})), bool(o.set(T={'L': L}))], [False]*4)
        for f in (lambda: o.set('T'), lambda: o.set(('T.L', 1., 2.)), lambda: o.set(5, 1.), lambda: o.set(T=3.), lambda: o.set('T.L.x', 1.)):
            c.raises('malformed', f)

def scenarios(tier):
    L = []
    q = tier == 'quick'
    n = i = 0
    N = 160 if q else 2000
    ws = w.worlds('c17', N*2, 1, 9, kinds=('rlc', 'rlc', 'trl', 'trl', 'arc', 'tab', 'arr'), depth=(0, 1, 2, 3))
    ms = w.worlds('c17gtl', 16, 1, root='gtl')+w.worlds('c17in', 16, 1, root='in')
    ws = ms[::2]+ws[:40]+ms[1::2]+ws[40:]
    for d, _ in ws:
        i += 1
        rng = random.Random(f'c17/{i}')
        st = w.settable(d)
        if not st: continue
        if n >= N: break
        sets = []
        for k in range(rng.randint(1, 3)):
            items = [(p, a, rng.randint(0, 2)) for p, a in rng.sample(st, min(len(st), rng.randint(1, 4)))]
            ev = rng.choice([None, ('getS', w.F1, None, None), ('getS', (w.F1, w.F2), 1, None), ('sol', w.F1, 2, None)])
            sets.append((FORMS[(n+3*k) % len(FORMS)], items, ev))
        L.append(S(f'circuit {n}', run, dict(d=d, sets=sets), target=T, conc=2, maxpaths=8, tl=30))
        if n % 4 == 0:
            kinds = ['block', 'deep', 'attr', 'internal', 'nopath', 'odd']
            if any(w.leaf(d, x)['t'] in ('tab', 'arr') for x in w.paths(d)): kinds.append('noset')
            items = [(p, a, rng.randint(0, 2)) for p, a in rng.sample(st, min(len(st), 2))]
            k = kinds[(n//4) % len(kinds)]
            L.append(S(f'bad {n} {k}', bad, dict(d=d, items=items, kind=k, form=('pos', 'tup', 'pdict', 'mix')[n//4 % 4]), target=T, conc=2, maxpaths=8, tl=30))
            L.append(S(f'bad first {n} {k}', bad, dict(d=d, items=items, kind=k, form=('pos', 'tup', 'pdict', 'mix')[n//4 % 4], first=True), target=T, conc=2, maxpaths=8, tl=30))
            one = [(p, a, (n//4+j) % 3) for j, (p, a) in enumerate(x for x in st if x[0] == items[0][0])]
            L.append(S(f'half {n}', bad, dict(d=d, items=one, kind='half', form=('pos', 'tup', 'pdict', 'mix')[(n//4) % 4]), target=T, conc=2, maxpaths=8, tl=30))
        n += 1
    for i, (d, h) in enumerate(w.bigs('c17', 40 if q else 200, 0, noise=False)):
        rng = random.Random(f'c17big/{i}')
        st = w.settable(d) if d['t'] == 'circ' else []
        if not st: continue
        sets = []
        for k in range(12):
            items = [(p, a, rng.randint(0, 2)) for p, a in rng.sample(st, min(len(st), rng.randint(1, 9)))]
            sets.append((FORMS[(i+3*k) % len(FORMS)], items, rng.choice([None, ('getS', w.F1, None, None), ('getS', (w.F1, w.F2), 1, None), ('sol', w.F1, 2, None)])))
        L.append(S(f'large {i}', run, dict(d=d, sets=sets), target=T, sym=False, conc=1))
    for i, (d, _) in enumerate(w.worlds('c17found', 24 if q else 240, 1, 9, depth=(0, 1, 2, 3))):
        if d['t'] == 'circ': L.append(S(f'found {i}', found, dict(d=d, k=i), target='rfCircuit.findObj,rfCircuit.object,rfCircuit.listBlocks', conc=1, maxpaths=4, tl=20))
    for k in ('tapered', 'table', 'rlc', 'arc', 'coupler', 'trl', 'empty'):
        L.append(S(f'refused {k}', trouble, dict(kind=k), target=T, conc=2, sym=k != 'tapered'))
    return L
