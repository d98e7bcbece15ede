"""C16 copies: same results, independent of the original"""
import copy as _copy, pickle, random
from vc.api import S
from . import _world as w
LEVEL = 'other'
BOUNDS = ('circuits of up to 3 blocks per level, 3 levels and about 8 ports, tables, lines and lumped elements, couplers; up to 3 actions before the copy and 4 on '
          'either side after it; all numbers symbolic'
          '; concrete runs only (bounded, not proved): circuits of 6 or more blocks per level, long histories')
EXPLANATION = ('an object with a random past is copied (copy(), copy.copy, copy.deepcopy, for tables also pickle); then the original and the copy are changed and evaluated '
               'in turn, each against its own description: every result is proved equal, for all values, to that of a new object built from that description.')
T = ('rfBase.__deepcopy__,rfBase.copy,rfBase.__copy__,rfObject.__deepcopy__,rfObject.copy,rfObject.__getstate__,rfObject.__setstate__,rfRLC.__deepcopy__,rfTRL.__deepcopy__,'
     'rfCircuit.set,rfCircuit.addblock,rfCircuit.terminate,rfObject.setS,rfObject.__setitem__,rfTRL.set,rfRLC.set')
MODES = ('copy', 'copy.copy', 'copy.deepcopy')

def pickled(c, o):
    if not c.symbolic: return pickle.loads(pickle.dumps(o))
    o2 = type(o).__new__(type(o))
    st = pickle.loads(pickle.dumps(o.__getstate__()))
    if hasattr(o2, '__setstate__'): o2.__setstate__(st)
    else: o2.__dict__.update(st)
    return o2

def copied(c, o, mode):
    if mode == 'copy': return o.copy()
    if mode == 'copy.copy': return _copy.copy(o)
    if mode == 'copy.deepcopy': return _copy.deepcopy(o)
    return pickled(c, o)

def same(r, a):
    if a[0] == 'maxV' and isinstance(r[1], dict): return [r[0], [r[1][k] for k in r[1]]]   # keyed by the Id
    return r

def check(c, v, who, o, d, a):
    if a[0] in w.EVALS:
        r, x = w.both(c, v, d, o, a)
        c.eq(f'{who} {a[0]} as of a new object', same(r, a), same(x, a))
    else: w.act(c, v, d, o, a)

def run(c, d, before, mode, ha, hb, order):
    v = w.Vals(c)
    da = _copy.deepcopy(d)
    o = w.make(c, v, da)
    for a in before:
        if a[0] in w.EVALS: w.fresh(c, v, da, a)     # has a unique solution
        w.act(c, v, da, o, a)
    o2 = copied(c, o, mode)
    db = _copy.deepcopy(da)
    ha, hb = list(ha), list(hb)
    n = 0
    check(c, v, 'copy', o2, db, ('getS', w.F1, 1, None))
    for side in order:
        n += 1
        if side == 'a': check(c, v, f'{n} original', o, da, ha.pop(0))
        else: check(c, v, f'{n} copy', o2, db, hb.pop(0))
    for a in w.observe(o, da):
        check(c, v, 'end original', o, da, a)
        check(c, v, 'end copy', o2, db, a)

def coupler(c, mode):
    kc, f0 = c.between('kc', 0, 1), c.pos('f0', 1, 3)*1e7
    o = c.rf.rfCoupler(kc=kc, f0Hz=f0)
    o2 = copied(c, o, mode)
    for f in (3e7, [2e7, 5e7]): c.eq('S', o2.getS(f), o.getS(f))
    c.eq('ports', [o2.ports, len(o2)], [o.ports, len(o)])

def equal(c, d, before, mode, k):
    """a copy compares equal to its original, whatever was evaluated; a changed one does not"""
    v = w.Vals(c)
    d = _copy.deepcopy(d)
    o = w.make(c, v, d)
    for a in before: w.act(c, v, d, o, a)
    o2 = copied(c, o, mode)
    def test(name, a, b, want): c.eq(name, [bool(a == b), bool(b == a), bool(a != b)], [want, want, not want])
    test('copy equals the original', o, o2, True)
    if k % 2: o2.getS(float(o2.fs[-1]))
    test('after an evaluation', o, o2, True)
    n, (f, M) = len(o2.fs)-1, o2[-1]
    one = M.copy(); one[0, -1] *= 1j
    for what, at, x in (('every entry', 0, o2[0][1]*2+1), ('a phase of the last', n, M*1j), ('one entry of the last', n, one), ('sign of the last', n, -M)):
        g, was = o2[at]
        o2[at] = g, x
        test(f'after a change of {what}', o, o2, False)
        o2[at] = g, was
    test('changed back', o, o2, True)
    o2.setS(float(max(o2.fs))*2, M) if not k % 3 else o2.sortports(list(reversed(o2.ports)))
    if not k % 3 or len(o2.ports) > 1: test('after a second change', o, o2, False)
    for x in (None, 5, 'x', [1]): test('another type', o, x, False)

def split(rng, d, n0, n1, seed):
    K = w.Keys()
    e = _copy.deepcopy(d)
    K.n = 500
    b = w.history(rng, e, n0, K)
    for a in b: w.sim(e, a)
    ha = w.history(rng, e, n1, K, evals=.35); hb = w.history(rng, e, n1, K, evals=.35)
    o = ['a']*len(ha)+['b']*len(hb); rng.shuffle(o)
    return b, ha, hb, ''.join(o)

def scenarios(tier):
    L = []
    q = tier == 'quick'
    for i, (d, h) in enumerate(w.worlds('c16', 150 if q else 1500, 1, 7)):
        rng = random.Random(f'c16/{i}')
        b, ha, hb, o = split(rng, d, rng.randint(0, 3), 4 if q else 5, i)
        L.append(S(f'circuit {i}', run, dict(d=d, before=b, mode=MODES[i % 3], ha=ha, hb=hb, order=o), target=T, conc=2, maxpaths=8, tl=30))
    for t in ('obj', 'trl', 'rlc', 'arc', 'tab'):
        for i, (d, h) in enumerate(w.worlds('c16'+t, (48 if t == 'obj' else 16) if q else 160, 1, root=t)):
            rng = random.Random(f'c16{t}/{i}')
            b, ha, hb, o = split(rng, d, rng.randint(0, 3), 3, i)
            m = (MODES+('pickle',))[min(i % 6, 3)] if t == 'obj' else MODES[i % 3]
            L.append(S(f'{t} {i}', run, dict(d=d, before=b, mode=m, ha=ha, hb=hb, order=o), target=T, conc=2, maxpaths=8, tl=30))
    for t in ('gtl', 'in'):
        for i, (d, h) in enumerate(w.worlds('c16'+t, 12 if q else 120, 1, root=t)):
            rng = random.Random(f'c16{t}/{i}')
            b, ha, hb, o = split(rng, d, rng.randint(0, 2), 3, i)
            L.append(S(f'model {t} {i}', run, dict(d=d, before=b, mode=MODES[i % 3], ha=ha, hb=hb, order=o), target=T+',rfGTL.__deepcopy__,rfGTL.copy,rfGTL.__copy__', conc=2, maxpaths=8, tl=30))
    for i, (d, h) in enumerate(w.worlds('c16eq', 24 if q else 240, 1, root='obj')):
        b, _, _, _ = split(random.Random(f'c16eq/{i}'), d, i % 4, 0, i)
        L.append(S(f'equal {i}', equal, dict(d=d, before=b, mode=(MODES+('pickle',))[i % 4], k=i), target='rfObject.__eq__,rfObject._copy_', sym=False, conc=1))
    for i, (d, h) in enumerate(w.bigs('c16', 18 if q else 150, 3, noise=False)):
        rng = random.Random(f'c16big/{i}')
        b, ha, hb, o = split(rng, d, rng.randint(0, 8), 9, i)
        if i % 2: b.insert(len(b)//2, ('noise', i, 20))
        L.append(S(f'large {i}', run, dict(d=d, before=b, mode=MODES[i//3 % 3], ha=ha, hb=hb, order=o), target=T, sym=False, conc=1))
    for m in MODES: L.append(S(f'coupler {m}', coupler, dict(mode=m), target='rfBase.__deepcopy__,rfCoupler.__init__', conc=3))
    return L
