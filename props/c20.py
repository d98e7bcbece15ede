"""C20 positions"""
import copy as _copy, random
from vc.api import S
from . import _world as w
LEVEL = 'other'
BOUNDS = ('circuits of up to 3 blocks per level, 4 levels and about 12 ports, lines sampled at 2 to 5 points, histories of up to 6 operations (building, evaluations, set, replacing, '
          'extending, deembedding); model files of up to 6 elements without loops, positions given at one place; all positions, lengths and other numbers symbolic'
          '; concrete runs only (bounded, not proved): circuits of 6 or more blocks per level, long histories')
EXPLANATION = ('after each operation the position of every node at every level, those of the external ports and those in the standing-wave profiles are proved equal to the ones '
               'following from the description of the circuit: sums of relative positions and port positions, a new port being where the first port it joins is.')
T = 'rfCircuit.getpos,rfCircuit.xpos,rfCircuit.addblock,rfCircuit.connect,rfCircuit.terminate,rfCircuit.deembed,rfCircuit.maxV,rfTRL.set,rfTRL.__init__,rfBase.__init__,rfObject.sortports'

def X(v, k): return w.num(v, 'x', k)
def portpos(v, d, i):
    """of the i-th port in its object"""
    t = d['t']
    if t == 'circ': return pos(v, d, w.free(d)[i])
    if t == 'arr': return 0
    if t == 'trl' and 'xp' not in d: return (X(v, d['xs']) if 'xs' in d else 0)+(w.num(v, 'L', d['el']['L']) if i else 0)
    return X(v, d['xp'][i]) if 'xp' in d else 0

def created(d): return {n: e for e in d['seq'] if e[0] == 'c' for n in e[1:] if '.' not in n and not older(d, e, n)}
def older(d, e, n):
    for f in d['seq']:
        if f is e: return False
        if f[0] == 'c' and n in f[1:]: return True
def pos(v, d, node):
    c = created(d)
    if node in c:
        return pos(v, d, [p for p in c[node][1:] if p != node][0])
    n, p = node.split('.', 1)
    b = d['blocks'][n]
    r = X(v, b['rel']) if b['rel'] is not None else 0
    if p in b['names']: return r+portpos(v, b['d'], b['names'].index(p))
    return r+pos(v, b['d'], p)

def nodes(d, pre=''):
    for n, b in d['blocks'].items():
        for p in b['names']: yield f'{pre}{n}.{p}'
        if b['d']['t'] == 'circ':
            for q in nodes(b['d']):
                if q not in b['names']: yield f'{pre}{n}.{q}'
    for n in created(d): yield pre+n

def check(c, v, d, o, tag):
    ns = list(nodes(d))
    c.eq(f'{tag}: nodes {" ".join(ns)}'[:300], [o.getpos(n) for n in ns], [pos(v, d, n) for n in ns], scale=[1.])
    ports = list(o.ports)
    c.eq(f'{tag}: ports', sorted(ports), sorted(w.free(d)))
    c.eq(f'{tag}: port positions', list(o.xpos), [pos(v, d, p) for p in ports], scale=[1.])
    for n, b in d['blocks'].items():
        if b['d']['t'] == 'circ':
            i = o.blocks[n]['object']
            c.eq(f'{tag}: ports of {n}', list(i.xpos), [pos(v, b['d'], p) for p in i.ports], scale=[1.])

def profiles(c, v, d, o, V, base, tag):
    """positions in the standing-wave profiles"""
    here = [f'{n}.{p}' for n, b in d['blocks'].items() for p in b['names']]+list(created(d))
    for p in here:
        c.true(f'{tag} {p} given', p in V)
        if p in V: c.eq(f'{tag} {p}', list(V[p][0]), [base+pos(v, d, p)], scale=[1.])
    for n, b in d['blocks'].items():
        e = b['d']
        r = base+(X(v, b['rel']) if b['rel'] is not None else 0)
        if e['t'] == 'circ': profiles(c, v, e, o.blocks[n]['object'], V[n], r, f'{tag} {n}')
        elif e['t'] == 'trl':
            xs = list(V[n][0])
            x0, x1 = r+portpos(v, e, 0), r+portpos(v, e, 1)
            N = len(xs)
            if 'pts' in e: c.true(f'{tag} {n} points', N == e['pts'])
            c.eq(f'{tag} {n} profile', xs, [x0+(x1-x0)*k/(N-1) for k in range(N)], scale=[1.])
        elif e['t'] == 'rlc': c.eq(f'{tag} {n} profile', list(V[n][0]), [r+portpos(v, e, 0)]*2, scale=[1.]) if 'xp' not in e else None

def run(c, d, hist, each=True):
    v = w.Vals(c)
    d = _copy.deepcopy(d)
    d0 = _copy.deepcopy(d)
    d0.update(seq=[], blocks={}, pn=d['pn'])
    # built step by step
    o = w.make(c, v, {**d, 'seq': []})
    e0 = {**d, 'pn': None, 'seq': [], 'blocks': {}}
    for e in d['seq']:
        w.step(c, v, d, o, e, 'O', w.PLAIN)
        e0['seq'] = e0['seq']+[e]
        if e[0] == 'b': e0['blocks'] = {**e0['blocks'], e[1]: d['blocks'][e[1]]}
        check(c, v, e0, o, f'building {e[:2]}')
    for n, a in enumerate(hist):
        if a[0] == 'maxV':
            try: r = o.maxV2 if False else None
            except Exception: pass
            w.fresh(c, v, d, ('getS', a[1], None, None))
            with c.onepath(): r = o.maxV(v.f(a[1]), w.excitation(c, v, d), **({'Zbase': w.num(v, 'Zb', a[2])} if a[2] is not None else {}), **({'Id': 'top'} if n % 2 else {}), **({'xpos': X(v, 3)} if n % 3 == 1 else {}))
            c.true('profiles', list(r[2]) == ['top' if n % 2 else o.Id])
            profiles(c, v, d, o, r[2]['top' if n % 2 else o.Id], X(v, 3) if n % 3 == 1 else 0, f'{n} profile')
        else:
            if a[0] in w.EVALS: w.fresh(c, v, d, a)
            w.act(c, v, d, o, a)
        check(c, v, d, o, f'{n} {a[0]}')

def deemb(c, d, I, E):
    """declaring ports as deembedded moves none; the new ports are where the deembedded ones are"""
    v = w.Vals(c)
    d = _copy.deepcopy(d)
    o = w.make(c, v, d)
    fr = w.free(d)
    want = {n: pos(v, d, n) for n in nodes(d)}
    c.eq('before', [o.getpos(n) for n in want], list(want.values()), scale=[1.])
    o.deembed(dict(I), dict(E))
    for p, q in I: want[q] = want[p]
    c.eq('after', [o.getpos(n) for n in want], list(want.values()), scale=[1.])
    c.eq('ports', list(o.xpos), [want[p] for p in o.ports], scale=[1.])
    o.getS(v.f(w.F1))
    c.eq('solved', list(o.xpos), [want[p] for p in o.ports], scale=[1.])

def late(c, n, names, order):
    """a table whose ports are named, or numbered, when its first data are given"""
    rf, f = c.rf, w.F1
    M, Z, x = c.cmat('M', n), c.pos('Z', 20, 70), c.real('x')
    ps = [f'p{i}' for i in range(n)] if names else [f'{i:02d}' for i in range(n)]
    a, b = rf.rfObject(Zbase=Z), rf.rfObject(Zbase=Z, ports=list(ps))
    a.setS(f, M, list(ps)) if names else a.setS(f, M)
    b.setS(f, M)
    if order:
        for o in (a, b): o.sortports(list(reversed(ps)))
    def same(tag, a, b):
        c.true(f'{tag} ports', list(a.ports) == list(b.ports))
        c.eq(f'{tag} positions', list(a.xpos), list(b.xpos), scale=[1.]); c.eq(f'{tag} S', a.getS(f), b.getS(f))
    same('table', a, b)
    C = []
    for o in (a, b): q = rf.rfCircuit(); q.addblock('o', o, relpos=x); C.append(q)
    for p in ps: c.eq(f'position {p}', [q.getpos(f'o.{p}') for q in C], [x, x], scale=[1.])
    same('circuit', *C)

def objects(c, kind):
    rf = c.rf
    xs = [c.real(f'x{k}', lo=-3, hi=3) for k in range(4)]
    r = [c.real(f'r{k}', lo=-3, hi=3) for k in range(4)]
    L = c.pos('L', .2, 1.9); c.assume(L < 2.)
    def placed(o, ports, ps, depth=2):
        for k in range(depth):
            t = rf.rfCircuit(Id=f'c{k}'); t.addblock('B', o, relpos=r[k]); ports = ['B.'+p for p in ports]; o = t
            ps = [p+r[k] for p in ps]
            c.eq(f'placed {k}', [t.getpos(p) for p in ports]+list(t.xpos), ps+ps, scale=[1.])
    if kind == 'table':
        o = rf.rfBase(Ss=[c.cmat('S', 3)], fs=[w.F1], ports=['a', 'b', 'c'], xpos=xs[:3]); placed(o, ['a', 'b', 'c'], xs[:3])
        placed(rf.rfBase(Ss=[c.cmat('S', 3)], fs=[w.F1]), ['1', '2', '3'] if list(rf.rfBase(Ss=[c.cmat('S', 3)], fs=[w.F1]).ports)[0] == '1' else list(rf.rfBase(Ss=[c.cmat('S', 3)], fs=[w.F1]).ports), [0, 0, 0])
    if kind == 'sorted':
        o = rf.rfObject(ports=['b', 'c', 'a'], xpos=xs[:3]); o.setS(w.F1, c.cmat('S', 3))
        o.sortports(); placed(o, ['a', 'b', 'c'], [xs[2], xs[0], xs[1]])
        o.sortports(['c', 'a', 'b']); placed(o, ['c', 'a', 'b'], [xs[1], xs[2], xs[0]])
    if kind == 'line':
        placed(rf.rfTRL(L=L, Z0TL=40., dx=-2.), ['1', '2'], [0, L])
        placed(rf.rfTRL(L=L, Z0TL=40., xpos=xs[0], dx=-2.), ['1', '2'], [xs[0], xs[0]+L])
        placed(rf.rfTRL(L=L, Z0TL=40., xpos=xs[:2], ports=['u', 'v'], dx=-2.), ['u', 'v'], xs[:2])
        t = rf.rfTRL(L=L, Z0TL=40., xpos=xs[0], dx=-2.); t.set(L=1.25); placed(t, ['1', '2'], [xs[0], xs[0]+1.25])
        t.getS(w.F1, params={'L': 1.5}); placed(t, ['1', '2'], [xs[0], xs[0]+1.5])
        c.raises('one position', lambda: rf.rfTRL(L=L, Z0TL=40., xpos=[1.]), ValueError)
    if kind == 'coupler': placed(rf.rfCoupler(kc=.3, f0Hz=w.F1, ports=['p', 'q', 'r', 's'], xpos=xs), ['p', 'q', 'r', 's'], xs)
    if kind == 'arc': placed(rf.rfArcObj(1e-8, ports=['x'], xpos=[xs[0]]), ['x'], xs[:1])
    if kind == 'rlc': placed(rf.rfRLC(Rs=1., xpos=xs[:2]), ['s', 'p'], xs[:2])
    if kind == 'array':
        t = rf.rfCircuit(); t.addblock('A', c.cmat('S', 2), ports=['u', 'v'], relpos=r[2]); placed(t, ['A.u', 'A.v'], [r[2], r[2]])
    if kind[:8] == 'replaced':
        line = lambda n: rf.rfTRL(L=n*L, Z0TL=40., dx=-2.)
        t = rf.rfCircuit(); t.addblock('A', line(1), relpos=r[0]); t.addblock('B', line(1), relpos=r[1])
        if kind[8:]: t.getS(w.F1)
        t.addblock('A', line(2)); placed(t, ['A.1', 'A.2', 'B.1', 'B.2'], [r[0], r[0]+2*L, r[1], r[1]+L])        # where it was
        t.addblock('A', line(3), relpos=r[2]); placed(t, ['A.1', 'A.2', 'B.1', 'B.2'], [r[2], r[2]+3*L, r[1], r[1]+L])
        t.addblock('A', line(1), relpos=0.); placed(t, ['A.1', 'A.2', 'B.1', 'B.2'], [0., L, r[1], r[1]+L])
        u = rf.rfCircuit(); u.addblock('T', t, relpos=r[3]); placed(u, ['T.A.1', 'T.A.2', 'T.B.1', 'T.B.2'], [r[3], r[3]+L, r[3]+r[1], r[3]+r[1]+L])
        u.addblock('T.B', line(2), relpos=r[2]); placed(u, ['T.A.1', 'T.A.2', 'T.B.1', 'T.B.2'], [r[3], r[3]+L, r[3]+r[2], r[3]+r[2]+2*L])
        u.addblock('T.A', line(2)); placed(u, ['T.A.1', 'T.A.2', 'T.B.1', 'T.B.2'], [r[3], r[3]+2*L, r[3]+r[2], r[3]+r[2]+2*L])
    if kind == 'unknown':
        t = rf.rfCircuit(); t.addblock('A', rf.rfTRL(L=L, Z0TL=40., dx=-2.)); t.connect('A.1', 'n')
        for q in ('Q.1', 'zz', 'A.3', 'Q'): c.raises(f'no position of {q}', lambda: t.getpos(q))
    if kind == 'depreciated':
        t = rf.rfCircuit(); t.addblock('A', rf.rfTRL(L=L, Z0TL=40., dx=-2.), xpos=r[0]); c.eq('xpos as relpos', list(t.xpos), [r[0], r[0]+L], scale=[1.])

def decorate(rng, d, noset):
    """lines with sample points and positions of their own"""
    for b in d['blocks'].values():
        e = b['d']
        if e['t'] == 'circ': decorate(rng, e, noset)
        elif e['t'] == 'trl':
            if noset and rng.random() < .7: e['pts'] = rng.randint(2, 5)
            if rng.random() < .4: e['xs'] = rng.randint(0, 4)
            elif noset and rng.random() < .4: e['xp'] = [rng.randint(0, 4), rng.randint(5, 7)]
    return d

def exdee(rng, d, two=False):
    """ports of one block: internal ones get new names, external ones are linked to other free ports"""
    fr = w.free(d)
    by = {}
    for p in fr:
        if '.' in p: by.setdefault(p.split('.')[0], []).append(p)
    for n in ['T'] if two else sorted(by, key=lambda n: -len(by[n])):
        ps = by[n]
        if len(ps) != len(d['blocks'][n]['names']) or len(ps) < 2: continue
        others = [p for p in fr if p not in ps]
        k = 1 if two and len(ps) > 2 else rng.randint(1, len(ps)-1)
        if len(others) < k or two and len(ps) < 3: continue
        o = rng.sample(others, k); rng.shuffle(ps)
        return [(p, f'i{j}') for j, p in enumerate(ps[k:])], list(zip(ps[:k], o))

def model(c, i):
    """a model file whose positions are given at one place: the elements follow from their lengths"""
    from .c21 import write
    rng = random.Random(f'c20/model/{i}')
    N = rng.randint(1, 6)
    els, k = [], 1          # (name, kind, [nodes])
    deg = {'n0': 0}
    for j in range(N):
        at = rng.choice(list(deg)) if j else 'n0'
        kind = rng.choice(('line', 'line', 'line', 'rlc', 'arc' if j else 'line', 'stub'))
        name = f'e{rng.randint(0, 9)}{j}'
        if kind == 'arc': nodes = [at]
        elif kind == 'stub': nodes = [at, rng.choice(('[oc]', '[sc]', None))]
        else: nodes = [at, f'n{k}']; deg[nodes[1]] = 0; k += 1
        if len(nodes) == 2 and rng.random() < .5: nodes.reverse()
        for n in nodes:
            if n in deg: deg[n] += 1
        els.append((name, kind, nodes))
    ports = [n for n in deg if deg[n] == 1]
    if not ports:           # a circuit without ports is not evaluated
        els.append(('last', 'line', [rng.choice(list(deg)), 'end'])); deg[els[-1][2][0]] += 1; deg['end'] = 1; ports = ['end']
    rng.shuffle(ports)
    L = {n: c.pos('L'+n, .3, 2) for n, kd, _ in els if kd in ('line', 'stub')}
    x0 = c.real('x0', lo=-5, hi=5)
    def dx(e): return L[e[0]] if e[1] in ('line', 'stub') else 0
    # where the position is given
    how = rng.choice(('port', 'expr', 'xpos', 'relpos'))
    start = rng.choice(ports) if how in ('port', 'expr') else None
    G = {}
    for n, kd, nodes in els:
        d = {'ports': [x if x else {'Z': 12.5} for x in nodes]}
        if kd in ('line', 'stub'): d.update({'Z0TL': 30., rng.choice(('L', 'length')): L[n]})
        elif kd == 'rlc': d.update({rng.choice(('Ls', 'Cp')): 20.})
        else: d.update({'Larc': 20.})
        G[n] = d
    at = {}
    M = {'Portnames': list(ports), 'GTL': G}
    if start:
        M['relpos'] = {start: x0 if how == 'port' else 'shift+2*1.5'}
        if how == 'expr': M['variables'] = {'shift': x0}
        at[start] = x0 if how == 'port' else x0+3
    else:
        e = rng.choice(els)
        G[e[0]][how] = x0
        if e[2][0] in deg: at[e[2][0]] = x0
        else: at[e[2][1]] = x0+dx(e)
    todo = list(els)
    while todo:
        for e in list(todo):
            hit = [j for j, n in enumerate(e[2]) if n in at]
            if not hit: continue
            todo.remove(e)
            x = at[e[2][hit[0]]]-(dx(e) if hit[0] else 0)
            at[('of', e[0])] = x
            for j, n in enumerate(e[2]):
                if n in deg and n not in at: at[n] = x+(dx(e) if j else 0)
    name = write(c, {'M': M})
    o = c.rf.rfGTL(name, objkey='M', **({'Zbase': 25.} if i % 2 else {}))
    c.true('ports', list(o.ports) == ports)
    c.eq('external', list(o.xpos), [at[p] for p in ports], scale=[10.])
    for p in ports: c.eq(f'port {p}', o.getpos(p), at[p], scale=[10.])
    for e in els:
        for j, n in enumerate(e[2]):
            c.eq(f'{e[0]}.{n}', o.getpos(f"{e[0]}.{n or '[**]'}"), at[('of', e[0])]+(dx(e) if j else 0), scale=[10.])
    # inside a circuit
    q = c.rf.rfCircuit(Id='C'); r = c.real('r', lo=-3, hi=3)
    q.addblock('G', o, relpos=r)
    c.eq('placed', list(q.xpos), [r+at[p] for p in ports], scale=[10.])
    for e in els: c.eq(f'placed {e[0]}', q.getpos(f"G.{e[0]}.{e[2][0] or '[**]'}"), r+at[('of', e[0])], scale=[10.])
    if c.symbolic: return
    t, where, V = o.maxV(31e6, {p: 1. for p in ports})
    V = V[list(V)[0]]
    for e in els:
        if e[1] in ('line', 'stub'):
            xs = list(V[e[0]][0]); x = at[('of', e[0])]
            c.eq(f'profile {e[0]}', xs, [x+dx(e)*k/(len(xs)-1) for k in range(len(xs))], scale=[10.])

def scenarios(tier):
    L = []
    q = tier == 'quick'
    N = 90 if q else 900
    for i, (d, h) in enumerate(w.worlds('c20', N, 4 if q else 6, 12, depth=(0, 1, 1, 2, 3))):
        rng = random.Random(f'c20/{i}')
        sets = any(a[0] in ('set', 'params') for a in h)
        d = decorate(rng, d, not sets)
        h = h+([('maxV', w.F1, rng.choice([None, 1]))] if len(w.free(d)) > 0 else [])
        L.append(S(f'circuit {i}', run, dict(d=d, hist=h), target=T, conc=2, maxpaths=6, tl=30))
    for i, (d, h) in enumerate(w.bigs('c20', 30 if q else 200, 9, noise=False)):
        if d['t'] != 'circ': continue
        rng = random.Random(f'c20big/{i}')
        d = decorate(rng, d, not any(a[0] in ('set', 'params') for a in h))
        L.append(S(f'large {i}', run, dict(d=d, hist=h+[('maxV', w.F1, None)]), target=T, sym=False, conc=1))
    kinds = ('trl', 'trl', 'trl', 'tab', 'rlc')
    for i, (d, h) in enumerate(w.worlds('c20l', 30 if q else 300, 0, 10, kinds=kinds, depth=(1, 2, 3))):
        rng = random.Random(f'c20l/{i}')
        L.append(S(f'lines {i}', run, dict(d=decorate(rng, d, True), hist=[('maxV', w.F1, None)]), target=T, conc=2, maxpaths=6, tl=30))
    n = 0
    for i, (d, h) in enumerate(w.worlds('c20d', 400, 0, 12, kinds=('trl', 'tab', 'tab', 'rlc'), depth=(0, 1, 1))):
        if n >= (20 if q else 100): break
        rng = random.Random(f'c20d/{i}')
        x = exdee(rng, d) if not d['pn'] else None
        if x: L.append(S(f'deembed {n}', deemb, dict(d=decorate(rng, d, True), I=x[0], E=x[1]), target=T, conc=2, maxpaths=6, tl=30)); n += 1
    for i in range(16 if q else 100):
        rng = random.Random(f'c20d2/{i}')
        K = w.Keys(); d = {'t': 'circ', 'Zb': 0, 'blocks': {}, 'seq': [], 'pn': None}
        nn = rng.choice((3, 3, 4))
        tb = {'t': rng.choice(('tab', 'obj')), 'n': nn, 'S': K.new(), 'tab': [(w.F1, K.new()), (w.F2, K.new())], 'Zb': 0, 'xp': rng.sample(range(5), nn)}
        l = [('T', tb), ('U', {'t': 'tab', 'n': 3, 'S': K.new(), 'Zb': 0, 'xp': rng.sample(range(5), 3)})]
        if i % 3 == 0: l[0] = ('T', {'t': 'circ', 'Zb': 0, 'pn': None, 'blocks': {'B': w.gen_block(rng, K, tb, w.KINDS)}, 'seq': [('b', 'B')]})
        rng.shuffle(l)
        for n, x in l: d['blocks'][n] = w.gen_block(rng, K, x, w.KINDS); d['seq'].append(('b', n))
        x = exdee(rng, d, True)
        if x: L.append(S(f'deembed two {i}', deemb, dict(d=d, I=x[0], E=x[1]), target=T, conc=2, maxpaths=6, tl=30))
    for i in range(40 if q else 300): L.append(S(f'model {i}', model, dict(i=i), target='rfGTL.__init__,rfCircuit.getpos,rfCircuit.xpos', conc=2, maxpaths=6, tl=30))
    for n in (1, 2, 3):
        for nm in (0, 1):
            for od in (0, 1): L.append(S(f'late {n} {nm} {od}', late, dict(n=n, names=nm, order=od), target='rfObject.setS,rfObject.sortports,rfCircuit.addblock', conc=2))
    for k in ('table', 'sorted', 'line', 'coupler', 'arc', 'rlc', 'array', 'replaced', 'replaced when evaluated', 'unknown', 'depreciated'): L.append(S(f'object {k}', objects, dict(kind=k), target=T, conc=2))
    return L
