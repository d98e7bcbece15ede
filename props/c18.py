"""C18 the caller's data are never modified, results handed out are not changed later"""
import copy as _copy, random
from vc.api import S
from . import _world as w
LEVEL = 'other'
BOUNDS = ('circuits of up to 3 blocks per level, 3 levels and about 8 ports, single objects of every kind, all functions of the package taking arrays, lists or '
          'dictionaries with up to 3 ports and 3 frequencies; histories of up to 7 actions; all numbers symbolic'
          '; concrete runs only (bounded, not proved): circuits of 6 or more blocks per level, long histories')
EXPLANATION = ('every array, list and dictionary handed to the code and every result it hands out is recorded, with its structure and the identity of all its elements, '
               'and proved to be unchanged after each further action; all entries are symbolic, so a write of any other value is seen whatever the values are. '
               'Each object is then built again from the very same data and proved equal to the one built from fresh data.')
T = ('rfBase.__init__,rfObject.__init__,rfObject.setS,rfObject.getS,rfObject.deembed,rfObject.sortports,rfTRL.__init__,rfRLC.getS,rfCircuit.__init__,rfCircuit.addblock,'
     'rfCircuit.set,rfCircuit.deembed,rfCircuit.getS,rfCircuit.Solution,rfCircuit.maxV,rfCircuit.Get_internalSmatrix,ConvertGeneral,S_from_Z,S_from_Y,S_from_VI,Z_from_S,Y_from_S,'
     'maxfun,TLresolver.__init__,ReadTSF,WriteTSF,rfBase.tsf2str,rfBase.maxV,rfTRL.VISWs,strVSW,str_dict')

def snap(x):
    """structure with the very elements"""
    if hasattr(x, 'shape') and getattr(x, 'ndim', 0) > 0: return ('array', tuple(x.shape), [snap(y) for y in x.flat])
    if isinstance(x, (list, tuple)): return (type(x).__name__, len(x), [snap(y) for y in x])
    if isinstance(x, dict): return ('dict', [str(k) for k in x], [snap(y) for y in x.values()])
    return ('v', None, x)
def leaves(s):
    if s[0] == 'v': yield s[2]
    else:
        for y in s[2]: yield from leaves(y)
def shape(s): return s[0] if s[0] == 'v' else (s[0], s[1], [shape(y) for y in s[2]])
def plainleaf(x): return hasattr(x, '__dict__') or callable(x)

class Owner(w.Owner):
    def __init__(s, c): s.c, s.l = c, []
    def note(s, x, what):
        if hasattr(x, 'shape') or isinstance(x, (list, tuple, dict)): s.l.append((what, x, snap(x)))
        return x
    def arg(s, x): return s.note(x, 'given')
    def res(s, x): return s.note(x, 'result')
    def check(s, when):
        for what, x, old in s.l:
            new = snap(x)
            if shape(old) != shape(new):
                s.c.true(f'{when}: {what} data keep their structure', False); continue
            a, b = list(leaves(old)), list(leaves(new))
            if all(p is q for p, q in zip(a, b)): s.c.true(f'{when}: {what} data', True)
            elif s.c.symbolic and any(plainleaf(p) and not hasattr(p, 'op') for p in a): s.c.true(f'{when}: {what} data', False)
            else: s.c.eq(f'{when}: {what} data', b, a, tol=1e-300, floor=0.)

def run(c, d, hist):
    v = w.Vals(c)
    d = _copy.deepcopy(d); d0 = _copy.deepcopy(d)
    own = Owner(c)
    o = w.make(c, v, d, own=own)
    own.check('built')
    for n, a in enumerate(hist+w.observe(o, d)):
        if a[0] in w.EVALS: w.fresh(c, v, d, a)
        w.act(c, v, d, o, a, own)
        own.check(f'{n} {a[0]}')

class Again(w.Owner):
    """hands out the same data, in the same order, a second time"""
    def __init__(s): s.l, s.k = [], None
    def arg(s, x):
        if s.k is None: s.l.append(x); return x
        y = s.l[s.k]; s.k += 1
        return y

def again(c, d, hist):
    v = w.Vals(c)
    own = Again()
    d1, d2 = _copy.deepcopy(d), _copy.deepcopy(d)
    o = w.make(c, v, d1, own=own)
    for a in hist:
        if a[0] in w.EVALS: w.fresh(c, v, d1, a)
        w.act(c, v, d1, o, a)
    own.k = 0
    o2 = w.make(c, v, d2, own=own)
    c.true('all data used again', own.k == len(own.l))
    for a in w.observe(o2, d2):
        r, x = w.both(c, v, d2, o2, a)
        c.eq(f'same data again: {a[0]}', r, x)

# --- functions and objects ------------------------------------------------------------
def stk(c, n, N, nm='M'): return c.np.array([c.cmat(f'{nm}{k}_', N) for k in range(n)])

def twice(c, own, label, f):
    """f run twice on the same data gives the same"""
    r = own.res(f()); own.check(label)
    c.eq(f'{label} twice', f(), r); own.check(label+' again')
    return r

def conv(c, N, form):
    own = Owner(c); A = own.arg
    M = A(c.cmat('M', N) if form == 2 else stk(c, 2, N) if form == 3 else c.cvec('M', 2) if form == 1 else [[c.cplx(f'M{i}{j}') for j in range(N)] for i in range(N)])
    Z = c.pos('Z', 5, 60)
    for nm in ('S_from_Z', 'Z_from_S', 'S_from_Y', 'Y_from_S'): twice(c, own, nm, lambda: getattr(c.rf, nm)(M, Z))
    if form != 1 and N == 2 and form != 3: twice(c, own, 'S_from_VI', lambda: c.rf.S_from_VI(M, Z))
    nF = 2 if form in (1, 3) else 1
    n = 1 if form == 1 else N
    zs = [Z, A([c.pos(f'z{i}', 5, 60) for i in range(n)]), A(c.np.array([c.pos(f'y{i}', 5, 60) for i in range(n)])),
          A([[c.pos(f'x{k}{i}', 5, 60) for i in range(n)] for k in range(nF)]), A(c.np.array([[c.pos(f'w{k}{i}', 5, 60) for i in range(n)] for k in range(nF)]))]
    if n == nF: zs = [zs[0]]+zs[3:]
    for i, z in enumerate(zs):
        for t1, t2 in ('VV', 'GP', 'PG'): twice(c, own, f'ConvertGeneral {i}{t1}{t2}', lambda: c.rf.ConvertGeneral(z, M, zs[(i+1) % len(zs)], t1, t2))

def table(c, how, N):
    own = Owner(c); A = own.arg
    rf = c.rf
    fs = A([w.F2, w.F1]); ps = A(w.pnames(N)); xp = A([c.real(f'x{i}') for i in range(N)])
    Ss = A(stk(c, 2, N)) if how != 'list' else A([[[c.cplx(f'M{k}{i}{j}') for j in range(N)] for i in range(N)] for k in range(2)])
    if how in ('base', 'list'):
        if how == 'base': fs = A(c.np.array([w.F2, w.F1]))
        o = rf.rfBase(Ss=Ss, fs=fs, ports=ps, xpos=xp)
        own.check('built')
        E = A({p: c.cplx('a'+p) for p in w.pnames(N)})
        for Z in (None, c.pos('Z', 5, 60)):
            twice(c, own, 'getS', lambda: o.getS(fs, **({} if Z is None else {'Zbase': Z})))
            with c.onepath(): r = o.maxV(w.F1, E, Zbase=Z, xpos=xp)
            own.res(r[2]); own.check('maxV')
        E1 = A({'a': c.cplx('aa')})
        with c.onepath(): own.res(o.maxV(w.F2, E1)[2])
        own.check('maxV of part')
        o.getS(); own.check('getS of all'); o.copy(); own.check('copy')
        o2 = rf.rfBase(Ss=Ss, fs=fs, ports=ps, xpos=xp)
        c.eq('second object', [o2.getS(fs), list(o2.ports), list(o2.xpos)], [[Ss[0], Ss[1]] if how == 'base' else Ss, w.pnames(N), [c.real(f'x{i}') for i in range(N)]])
        return
    kw = A(dict(kind=1, fill_value='extrapolate'))
    o = rf.rfObject(ports=ps, xpos=xp, Zbase=30., interp='RI', interpkws=kw)
    if how == 'stack': o.setS(fs, Ss)
    elif how == 'arr': o.setS(A(c.np.array([w.F2, w.F1])), Ss)
    else:
        for f, M in zip(fs, Ss): o.setS(f, M)
    own.check('setS')
    r = twice(c, own, 'getS', lambda: o.getS(fs, Zbase=20.))
    r = own.res(o.getS(w.F1)); own.check('getS 1')
    mid = A([w.F1, (w.F1+w.F2)/2])
    if how == 'interp': twice(c, own, 'interpolated', lambda: o.getS(mid)); own.check('interpolated')
    E = A({p: c.cplx('a'+p) for p in w.pnames(N)})
    with c.onepath(): own.res(o.maxV(w.F2, E)[2])
    own.check('maxV')
    order = A(w.pnames(N)[::-1])
    if how == 'sort':
        o.sortports(order); own.check('sortports'); o.getS(fs); own.check('getS after sortports'); o.sortports(); own.check('sortports by name')
    if how == 'rebase': o.convert2newZbase(c.pos('Z', 5, 60)); own.check('convert2newZbase'); o.getS(fs); own.check('getS after')
    o.setS(w.F1, A(c.cmat('K', N))); own.check('setS again')
    o[0] = w.F1/2, A(c.cmat('K2', N)); own.check('item')
    for f, M in o: own.res(f)
    if N == 2:
        a = A([[c.cplx('q'), c.cplx('r')], [c.cplx('s'), c.cplx('t')]])
        rf.rfObject(a, ports=A(['u', 'v'])).getS(w.F1); own.check('matrix as argument')

def deemb(c, form, both):
    own = Owner(c); A = own.arg
    L = c.pos('L', .2, 1.9); Z = c.pos('Z', 10, 90)
    one = {'len': L if not c.symbolic else .25, 'tuple': (L, Z), 'dict': A(dict(L=L, Z0TL=Z))}[form]
    tab = A({'b': one, 'a': one} if both else {'b': one})
    def mk():
        o = c.rf.rfObject(ports=A(['a', 'b']), Zbase=30.)
        o.setS(w.F1, A(c.cmat('S', 2))); o.setS(w.F2, A(c.cmat('T', 2)))
        return o
    o, o2 = mk(), mk()
    try: o.deembed(tab); own.check('deembed')
    except RuntimeError: c.assume(False)      # no deembedded network exists
    o2.deembed(tab); own.check('deembed again')
    c.eq('second object', o2.getS([w.F1, w.F2]), o.getS([w.F1, w.F2])); own.check('after')

def circ(c, kind):
    own = Owner(c); A = own.arg
    rf = c.rf
    tab = lambda nm, n: rf.rfBase(Ss=A([c.cmat(nm, n)]), fs=A([w.F1]), ports=A(w.pnames(n)), Id=nm)
    def mk(maps, M, ps, par, pn):
        o = rf.rfCircuit(Id='C', Portnames=pn)
        o.addblock('A', tab('A', 2), ports=maps)
        o.addblock('M', M, ports=ps)
        o.addblock('R', rf.rfRLC(Rs=1., Ls=1e-7), params=par, ports=A({}))
        o.addblock('T', rf.rfTRL(L=1., Z0TL=A([40.]), ports=A(['1', '2'])), ports=A(['l', 'r']) if kind == 'lines' else None)
        o.connect('A.x', 'M.u', 'n'); o.connect('M.v', 'R.s'); o.connect('R.p', 'T.'+('l' if kind == 'lines' else '1'))
        return o
    end = 'T.r' if kind == 'lines' else 'T.2'
    data = [A({'a': 'x'}), A(c.cmat('M', 2)), A(['u', 'v']), A({'Rs': c.pos('Rs', .3, 3)}), A([end, 'n', 'A.b'])]
    if kind == 'lines': data[1] = A([[c.cplx(f'M{i}_{j}') for j in range(2)] for i in range(2)])
    o = mk(*data); own.check('built')
    fs = A([w.F1, w.F1]); fl = A({'sNp': True}); E = A({p: c.cplx('a'+p) for p in (end, 'n', 'A.b')})
    pr = A({'R': A({'Ls': c.pos('Ls', .3, 3)*1e-7})})
    r = twice(c, own, 'getS', lambda: o.getS(fs, flags=fl))
    own.res(o.getS(w.F1, params=pr)); own.check('params')
    own.res(o.getS(w.F1, Zbase=20.)); own.check('Zbase')
    nodes = A(['R.s', 'n', 'A.b'])
    own.res(o.Solution(w.F1, E, nodes=nodes, flags=fl)); own.check('Solution')
    own.res(o.Solution(w.F1, E, Zbase=20.)); own.check('Solution at Zbase')
    own.res(o.solve(w.F1, E)); own.check('solve')
    with c.onepath(): own.res(o.maxV(w.F1, E)[2])
    own.check('maxV')
    own.res(o.Get_internalSmatrix(w.F1, A(['R.s', 'T.'+end[2:]]))) if False else None
    vs = o.maxV(w.F1, E)[2] if not c.symbolic else None
    if vs is not None: own.res(vs); c.rf.strVSW(vs); c.rf.str_dict(vs); own.check('strVSW')
    str(o); own.check('str')
    if not c.symbolic: o.__str__(1); own.check('full str')
    o2 = mk(*data); own.check('second')
    data2 = [{'a': 'x'}, c.cmat('M', 2), ['u', 'v'], {'Rs': c.pos('Rs', .3, 3)}, [end, 'n', 'A.b']]
    o3 = mk(*data2)
    c.eq('second object', o2.getS(w.F1), o3.getS(w.F1))
    c.eq('second ports', [list(o2.ports), list(o2.blocks['A']['ports'])], [[end, 'n', 'A.b'], ['x', 'b']])
    sub = A({'T.L': c.pos('L', .2, 1.9), 'R.Ls': 2e-7}); nest = A({'L': 1.5})
    o.set(sub); own.check('set'); o.set('T', nest); own.check('set nested'); o.set(T=nest, R=A({'Rp': 3.})); own.check('set kw'); o.getS(w.F1); own.check('after set')
    o.copy().getS(w.F1); own.check('copy')

def refused(c, k):
    """requests that cannot be fulfilled (or only in part) do not change the data either"""
    own = Owner(c); A = own.arg
    rf = c.rf
    tab = lambda nm, n, **kw: rf.rfBase(Ss=A([c.cmat(nm, n)]), fs=A([w.F1]), ports=A(w.pnames(n)), Id=nm, **kw)
    o = rf.rfCircuit(Id='C')
    o.addblock('A', tab('A', 3)); i = rf.rfCircuit(Id='I'); i.addblock('q', tab('q', 2)); o.addblock('I', i); o.addblock('R', rf.rfRLC(Ls=1e-7)); o.connect('A.a', 'I.q.a', 'n')
    t = rf.rfTRL(L=c.pos('L', .2, 1.9), Z0TL=40.)
    b = rf.rfObject(ports=A(['u', 'v'])); b.setS(w.F1, A(c.cmat('b', 2)))
    def no(label, f):
        c.call(f); own.check(label)
    part = [{}, {'n': c.cplx('e')}, {'n': c.cplx('e'), 'A.b': 0., 'zz': 1.}]
    if k == 'excitation':
        o.getS(w.F1)
        for j, e in enumerate(part):
            E = A(e)
            for f in ('Solution', 'solve', 'maxV'): no(f'{f} {j}', lambda: getattr(o, f)(w.F1, E))
            no(f'Solution nodes {j}', lambda: o.Solution(w.F1, E, nodes=A(['I.q.b', 'nope'])))
        for j, e in enumerate([{}, {'1': c.cplx('e')}, {'1': 1., 'x': 2.}]):
            E = A(e)
            for f in ('VISWs', 'maxV'): no(f'line {f} {j}', lambda: getattr(t, f)(w.F1, E))
        for j, e in enumerate([{}, {'u': c.cplx('e')}, {'u': 1., 'x': 2.}]):
            E = A(e); no(f'table maxV {j}', lambda: b.maxV(w.F1, E))
        x = tab('x', 2)
        for j, e in enumerate([{}, {'a': c.cplx('e')}, {'a': 1., 'x': 2.}]):
            E = A(e); no(f'plain table maxV {j}', lambda: x.maxV(w.F1, E))
    elif k == 'set':
        for j, a in enumerate([{'R.nope': 1.}, {'R.Ls': 2e-7, 'R.nope': 1.}, {'Q.L': 1.}, {'L': 1.}, {'I.q.L': 1.}, {'R': {'Ls': 1., 'no': 2.}}, {'I': {'q': {'L': 1.}}}]):
            q = A(a)
            for v_ in a.values(): own.note(v_, 'given')
            no(f'set {j}', lambda: o.set(q)); no(f'set kw {j}', lambda: o.set(**{x: y for x, y in q.items()}))
        p = A({'R': A({'nope': 1.})}); no('params', lambda: o.getS(w.F1, params=p))
        p = A({'Z0TL': 1.}); no('line params', lambda: t.getS(w.F1, params=p))
    elif k == 'build':
        m = A({'a': 'x', 'nope': 'y'}); no('mapping', lambda: o.addblock('N', tab('N', 2), ports=m))
        m = A({'p': 'x'}); no('mapping of an array', lambda: o.addblock('N', A(c.cmat('N2', 2)), ports=m))
        m = A(['x']); no('list', lambda: o.addblock('N', tab('N', 2), ports=m)); no('list of an array', lambda: o.addblock('N', A(c.cmat('N3', 2)), ports=m))
        p = A({'nope': 3.}); no('parameters', lambda: (o.addblock('P', rf.rfRLC(Rs=1.), params=p), o.getS(w.F1)))
        pn = A(['x', 'y', 'z']); no('announced', lambda: (lambda q: (q.addblock('A', tab('A', 2)), q.getS(w.F1)))(rf.rfCircuit(Portnames=pn)))
        d = A({'A.b': 'n', 'zz': 'y'}); no('deembed', lambda: o.deembed(d, d))
        d = A([('A.b', 'n2'), ('A.c',)]); no('deembed list', lambda: o.deembed(d))
    elif k == 'table':
        d = A({'u': .3, 'zz': (.2, 30.)}); no('deembed', lambda: b.deembed(d))
        d = A({'u': 'x'}); no('deembed kind', lambda: b.deembed(d))
        M = A(c.cmat('M', 3)); no('shape', lambda: b.setS(w.F2, M))
        M = A([c.cmat('M', 2), c.cmat('M', 2)]); fs = A([w.F2]); no('number', lambda: b.setS(fs, M))
        fs = A([w.F1, 2*w.F2]); no('frequencies', lambda: tab('y', 2).getS(fs))
        l = A(['v', 'nope']); no('order', lambda: b.sortports(l))
        M = A(c.np.array([c.cmat('M', 2)])); fs = A([w.F1, w.F2]); ps = A(['a']); no('frequencies', lambda: rf.rfBase(Ss=M, fs=fs)); no('ports', lambda: rf.rfBase(Ss=M, ports=ps)); no('object ports', lambda: rf.rfObject(M[0], ports=ps))
    elif k == 'conv':
        M = A([c.cmat('M', 2), c.cmat('K', 2)]); V = A([[1., 2., 3.], [1., 2., 3.]])
        for z in ([10., 20., 30.], [[10., 20.]], [[10.], [20.]]):
            Z = A(z)
            no(f'{z}', lambda: rf.ConvertGeneral(Z, M, 50.)); no(f'from {z}', lambda: rf.ConvertGeneral(50., M, Z)); no(f'type {z}', lambda: rf.ConvertGeneral(50., M, 20., 'X', 'V'))
        for nm in ('S_from_Z', 'Z_from_S', 'S_from_Y', 'Y_from_S'): no(nm, lambda: getattr(rf, nm)(V, 50.))
        no('VI', lambda: rf.S_from_VI(V, 50.))

def dcirc(c, form):
    own = Owner(c); A = own.arg
    S1, S2 = c.cmat('S', 3), c.cmat('T', 2)
    o = c.rf.rfCircuit(Id='D')
    o.addblock('S', c.rf.rfBase(Ss=A([S1]), fs=A([w.F1]), ports=A(['a', 'b', 'c'])))
    o.addblock('T', c.rf.rfBase(Ss=A([S2]), fs=A([w.F1]), ports=A(['a', 'b'])))
    I, X = {'S.a': 'i'}, {'S.b': 'T.a'}
    if form == 'list': I, X = list(I.items()), list(X.items())
    o.deembed(A(I), A(X)); own.check('deembed')
    own.res(o.getS(w.F1)); own.check('getS')
    own.res(o.getS(w.F1, Zbase=20.)); own.check('getS again')

def lines(c, kind):
    own = Owner(c); A = own.arg
    rf = c.rf
    if kind == 'tapered' and c.symbolic: return
    pa = {'uniform': dict(Z0TL=c.pos('Z', 10, 90), L=c.pos('L', .2, 1.9)), 'one': dict(Z0TL=A([40.]), L=1.), 'tapered': dict(Z0TL=A([40., 50., 30.]), L=1.),
          }[kind]
    if kind == 'tapered': pa['A'] = A([[0., .5, 1.], [1e-3, 2e-3, 1e-3]]) if False else 0.
    kw = A(dict(ports=A(['u', 'v']), xpos=A([c.real('x0'), c.real('x1')]), odeparams=A({'rtol': 1e-10, 'atol': 1e-10}), **pa))
    t = rf.rfTRL(**kw); own.check('built')
    fs = A([w.F1, w.F2]); E = A({'u': c.cplx('a'), 'v': c.cplx('b')})
    twice(c, own, 'getS', lambda: t.getS(fs))
    own.res(t.getS(w.F1, Zbase=20.)); own.check('Zbase')
    own.res(t.solveVI(w.F1, c.cplx('V'), c.cplx('I'))); own.check('solveVI')
    own.res(t.VISWs(w.F1, E)); own.check('VISWs')
    own.res(t.VISWs(w.F1, E, Zbase=20.)); own.check('VISWs at Zbase')
    with c.onepath(): own.res(t.maxV(w.F1, E)[2])
    own.check('maxV'); own.res(t.getS(w.F2)); own.check('another frequency')
    if kind == 'uniform':
        p = A({'L': c.pos('L2', .2, 1.9)})
        own.res(t.getS(w.F1, params=p)); own.check('params'); t.set(L=1.); own.check('set')
    t2 = rf.rfTRL(**kw); t3 = rf.rfTRL(**_copy.deepcopy(dict(kw)) if not c.symbolic else dict(kw))
    c.eq('second object', [t2.getS(w.F1), list(t2.xpos)], [t3.getS(w.F1), [c.real('x0'), c.real('x1')]])
    t.copy().getS(w.F1); own.check('copy'); str(t) if not c.symbolic else None; own.check('str')

def lumped(c, kind):
    own = Owner(c); A = own.arg
    rf = c.rf
    fs = A([w.F1, w.F2])
    kw = A(dict(ports=A(['u', 'v']), xpos=A([c.real('x0'), c.real('x1')]), Rs=c.pos('Rs', .3, 3), Cp=c.pos('Cp', .3, 3)*1e-10))
    n = 2
    if kind == 'rlc': o = rf.rfRLC(**kw)
    elif kind == 'arc':
        n = 1; o = rf.rfArcObj(1e-8, ports=A(['u']), xpos=A([c.real('x0')]))
    else:
        n = 4; o = rf.rfCoupler(ports=A(['u', 'v', 'w', 'x']), kc=.4, f0Hz=w.F1, xpos=A([0., 1., 0., 1.]))
    own.check('built')
    twice(c, own, 'getS', lambda: o.getS(fs)); own.res(o.getS(w.F1, Zbase=20.)); own.check('Zbase')
    if kind == 'rlc': own.res(o.getS(w.F1, params=A({'Rs': 2., 'Ls': 1e-7}))); own.check('params')
    E = A({p: c.cplx('a'+p) for p in o.ports})
    with c.onepath(): own.res(o.maxV(w.F1, E)[2])
    own.check('maxV'); own.res(o.getS(w.F2)); own.check('another frequency')
    if kind == 'rlc': o.set(Rs=5.); o.getS(w.F1); own.check('set')
    if kind == 'arc': o.set(Larc=2e-8); o.getS(w.F1); own.check('set')
    o.copy(); own.check('copy')

def small(c, kind):
    own = Owner(c); A = own.arg
    if kind == 'maxfun':
        xs, ys = A(c.np.array([0., 1., 2., 3., 4.])), A(c.np.array([c.pos(f'y{i}') for i in range(5)]))
        with c.onepath(): own.res(c.rf.maxfun(xs, ys))
        own.check('maxfun')
        xs, ys = A([0., 1., 2.]), A([c.pos(f'z{i}') for i in range(3)])
        with c.onepath(): c.rf.maxfun(xs, ys)
        own.check('maxfun of lists')
    if kind == 'resolver':
        kw = A(dict(Z0TL=c.pos('Z', 10, 90), rho=A([1e-8]), OD=.2, epsr=2., L=1.))
        fg = A({('a', 'b'): 'c'})
        t = c.mod('resolveTLparams').TLresolver(forget=fg, **kw); own.check('TLresolver')
        t.rjwL(2*c.pi*w.F1, 0.); own.check('evaluated')
        if not c.symbolic:
            n = A([30., 40., 20.]); m = A([[0., .2, 1.], [30., 40., 20.]]); q = A(c.np.array([[0., .5, 1.], [30., 40., 20.]]))
            for z in (n, m, q):
                t = c.rf.TLresolver(Z0TL=z, L=1.); t.rjwL(1e8, .3); t.gjwC(1e8, A([.1, .7])); own.check('tapered')
    if kind == 'tsf':
        fs = A([w.F1, w.F2])
        M = A(c.np.array([[[.1+.2j, .3], [.2j, .4]], [[.1, .3j], [.2, .4j]]]))
        ps = A(['u', 'v'])
        o = c.rf.rfBase(Ss=M, fs=fs, ports=ps)
        for fmt in ('# MHZ S MA R 50', '# Hz Z RI', '# GHz Y DB R 20'):
            cm = A(['one', 'two'])
            s = o.tsf2str(tfmt=fmt, comments=cm); own.check('tsf2str'); o.tsf2str(fs=A([w.F2]), tfmt=fmt); own.check('tsf2str of some')
            if 'Y' in fmt or 'Z' in fmt: continue
            kw = A(dict(funit='Hz', Zbase=30., ports=A(['x', 'y'])))
            r = c.rf.ReadTSF(s, **kw); own.res(r['Ss']); own.check('ReadTSF')
            c.rf.WriteTSF(o, A(['x']) if False else None, fs=fs, tfmt=fmt) if False else None
            c.eq('read again', c.rf.ReadTSF(s, **kw)['Ss'], r['Ss']); own.check('ReadTSF again')
    if kind == 'vsw':
        V = A({'C': {'A': {'a': ([0.], [2.]), 'b': ([1.], [1.])}, 'T': (c.np.array([0., 1.]), c.np.array([1., 3.]))}})
        c.rf.strVSW(V); own.check('strVSW'); c.rf.str_dict(V); own.check('str_dict')
        M = A(c.np.array([[.1+.2j, .3], [.2j, .4]]))
        c.rf.strM(M); c.rf.printMA(M); c.rf.printRI(M); own.check('strM')

def gtl(c):
    """a model file's variables, as the caller gave them"""
    own = Owner(c); A = own.arg
    md = A({'variables': A({'Lx': .5, 'Zx': 40.}), 'Portnames': A(['in', 'out']),
            'GTL': A({'A': A({'ports': A({'in': 'in', 'm': 'm'}) if False else A(['in', 'm']), 'L': 'Lx', 'Z': 'Zx'}), 'B': A({'ports': A(['m', 'out']), 'L': .3, 'Z': 20.})})}) if False else None

def scenarios(tier):
    L = []
    q = tier == 'quick'
    for i, (d, h) in enumerate(w.worlds('c18', 100 if q else 1000, 5 if q else 7)):
        L.append(S(f'circuit {i}', run, dict(d=d, hist=h), target=T, conc=2, maxpaths=8, tl=30))
        if i % 2 == 0: L.append(S(f'circuit {i} again', again, dict(d=d, hist=h[:3]), target=T, conc=2, maxpaths=8, tl=30))
    for t in ('obj', 'trl', 'rlc', 'arc', 'tab'):
        for i, (d, h) in enumerate(w.worlds('c18'+t, 10 if q else 100, 5, root=t)):
            L.append(S(f'{t} {i}', run, dict(d=d, hist=h), target=T, conc=2, maxpaths=8, tl=30))
    for t in ('gtl', 'in'):
        for i, (d, h) in enumerate(w.worlds('c18'+t, 6 if q else 60, 4, root=t)):
            L.append(S(f'model {t} {i}', run, dict(d=d, hist=h), target=T+',rfGTL.__init__,rfGTL.getS', conc=2, maxpaths=8, tl=30))
    for i, (d, h) in enumerate(w.bigs('c18', 12 if q else 100, 12, noise=False)):
        L.append(S(f'large {i}', run, dict(d=d, hist=h), target=T, sym=False, conc=1))
        if i % 2: L.append(S(f'large {i} again', again, dict(d=d, hist=h[:5]), target=T, sym=False, conc=1))
    for N in (1, 2, 3):
        for form in (1, 2, 3, 4):
            if form == 1 and N != 1 or form == 4 and N == 1: continue
            L.append(S(f'conversions {N} {form}', conv, dict(N=N, form=form), target=T, conc=2))
    for how in ('base', 'list'):
        for N in (1, 2, 3): L.append(S(f'table {how} {N}', table, dict(how=how, N=N), target=T, conc=2))
    for how in ('stack', 'arr', 'single', 'interp', 'sort', 'rebase'):
        for N in (1, 2, 3): L.append(S(f'table {how} {N}', table, dict(how=how, N=N), target=T, conc=2))
    for f in ('len', 'tuple', 'dict'):
        for b in (0, 1): L.append(S(f'deembed {f} {b}', deemb, dict(form=f, both=b), target=T, conc=2))
    for k in ('excitation', 'set', 'build', 'table', 'conv'): L.append(S(f'refused {k}', refused, dict(k=k), target=T, conc=2))
    for k in ('plain', 'lines'): L.append(S(f'circuit data {k}', circ, dict(kind=k), target=T, conc=2))
    for k in ('dict', 'list'): L.append(S(f'deembedded circuit {k}', dcirc, dict(form=k), target=T, conc=2))
    for k in ('uniform', 'one', 'tapered'): L.append(S(f'line {k}', lines, dict(kind=k), target=T, conc=2, sym=k != 'tapered'))
    for k in ('rlc', 'arc', 'coupler'): L.append(S(f'lumped {k}', lumped, dict(kind=k), target=T, conc=2))
    for k in ('maxfun', 'resolver', 'tsf', 'vsw'): L.append(S(f'function {k}', small, dict(kind=k), target=T, conc=2, sym=k not in ('vsw', 'tsf')))
    return L
