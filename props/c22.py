"""C22 the common contract of all rf objects"""
import itertools, random
from vc.api import S
from . import _circ as ci
from .c07 import par
from .c11 import reref, U
from .c16 import pickled
LEVEL = 'other'
BOUNDS = ('every kind of object (table, interpolated table, line uniform and tapered, lumped element, arc, coupler, array, circuit, circuit in circuit, copies of them) with every '
          'number of ports up to 4; frequency lists of up to 4 entries in every order with repetitions; all parameters, frequencies and reference impedances symbolic'
          '; concrete runs only (bounded, not proved): lists of up to 25 frequencies, frequencies of 0.05 Hz to 500 THz, 4 levels of nesting')
EXPLANATION = ('For each kind of object: a list returns, in order, the matrices an untouched second object returns for the frequencies one by one; the length, the port list and the '
               'matrix size agree; the matrix at another reference impedance is the one of the same voltages and currents (bilinear transform of the matrix at the own reference); '
               'and the object alone in a circuit of another reference impedance, directly or nested twice, gives that matrix too.')
ASSUMPTIONS = ['a tapered line: odeint is the solution operator of the telegrapher\'s equations (vc/shim.py); concretely it is scipy']
TRUSTED = ['scipy.integrate.odeint', 'scipy.interpolate.interp1d']
T = 'rfBase.getS,rfBase.get1S,rfBase.__len__,rfObject.getS,rfTRL.getS,rfRLC.getS,rfArcObj.get1S,rfCoupler.get1S,rfCircuit.getS,ConvertGeneral'

def freqs(c, n):
    """n increasing frequencies, far apart or next to each other"""
    f, fs = 0, []
    for i in range(n):
        d = c.pos(f'df{i}', 3, 30)*1e6
        if not c.symbolic: d = float(round(d)) if not i or round(d) % 2 else 1.
        f = f+d; fs.append(f)
    return fs

def phi(c):
    """contract of odeint: the fundamental matrix of the linear system it is handed, one unknown matrix for each system and node"""
    seen, at = [], {}
    def ode(func, y0, t, args=(), **k):
        d = func([0, 0, 1, 0], t[0], *args)
        key = tuple(id(x) for x in d); seen.append(d)
        V, I = y0[0]+1j*y0[1], y0[2]+1j*y0[3]
        out = []
        for i in range(len(t)):
            m = [[1, 0], [0, 1]] if i == 0 else at.setdefault((key, id(t[i])), [[c.cplx(f'Phi{len(at)}_{a}{b}') for b in range(2)] for a in range(2)])
            seen.append(t[i])
            v, j = m[0][0]*V+m[0][1]*I, m[1][0]*V+m[1][1]*I
            out.append([c.np.real(v), c.np.imag(v), c.np.real(j), c.np.imag(j)])
        return c.np.array(out)
    if c.symbolic: c.hook('odeint', ode)

def maker(c, kind, n=2):
    """(a function making equal objects, frequencies it answers, ports)"""
    rf = c.rf; Z0 = c.pos('Zb', 5, 60)
    kw = {'Zbase': Z0}
    fs = freqs(c, 3)
    names = ['q', 'B', 'a', '10'][:n]
    Ms = [c.cmat(f'S{i}_', n) for i in range(3)] if kind in ('base', 'obj', 'objint', 'objunit', 'objre', 'circ', 'circZ', 'noz', 'nested', 'nested2') else None
    c.table = Ms if kind in ('base', 'noz', 'obj', 'objunit') else None
    if kind == 'base': return (lambda: rf.rfBase(Ss=list(Ms), fs=list(fs), ports=list(names), **kw)), fs, names, Z0
    if kind == 'noz': return (lambda: rf.rfBase(Ss=list(Ms), fs=list(fs))), fs, [str(k+1) for k in range(n)], 50.
    if kind in ('obj', 'objint', 'objunit', 'objre'):
        u = 'MHz' if kind == 'objunit' else 'Hz'
        def mk():
            o = rf.rfObject(ports=list(names), funit=u, interp='RI', interpkws={'kind': 1}, **kw)
            for i in (1, 0, 2): o.setS(fs[i]/U[u], Ms[i].copy())
            if kind == 'objre': o.convert2newZbase(c.pos('Zn', 10, 90))
            return o
        if kind == 'objint':
            t = c.between('t', 0, 1)
            if c.symbolic: c.assume(t > 0); c.assume(t < 1)
            x = fs[0]+(fs[1]-fs[0])*t
            if c.symbolic: c.assume(x > fs[0]); c.assume(x < fs[1])
            return mk, [fs[0], x, fs[2]], names, Z0
        return mk, [f/U[u] for f in fs], names, c.pos('Zn', 10, 90) if kind == 'objre' else Z0
    if kind == 'trl':
        el = par(c, ('rTL', 'gTL', 'LTL', 'CTL')); L = c.pos('L', .2, 2)
        return (lambda: rf.rfTRL(L=L, **el, **kw)), fs, ['1', '2'], Z0
    if kind == 'trl0':
        Zl, L = c.pos('Zl', 10, 90), c.pos('L', .2, 2)
        return (lambda: rf.rfTRL(L=L, Z0TL=Zl, ports=['u', 'v'], **kw)), fs, ['u', 'v'], Z0
    if kind == 'taper':
        phi(c)
        L = c.pos('L', .3, 1)
        za, zb = c.pos('za', 20, 40), c.pos('zb', 20, 40)
        return (lambda: rf.rfTRL(L=L, Z0TL=[za, zb], dx=L/6.5, **kw)), fs, ['1', '2'], Z0
    if kind == 'rlc':
        el = {'Rs': c.pos('Rs', 1, 9), 'Ls': c.pos('Ls', .3, 3)*1e-7, 'Cs': c.pos('Cs', .3, 3)*1e-10, 'Rp': c.pos('Rp', 20, 90), 'Lp': c.pos('Lp', .3, 3)*1e-7, 'Cp': c.pos('Cp', .3, 3)*1e-10}
        return (lambda: rf.rfRLC(**el, **kw)), fs, ['s', 'p'], Z0
    if kind == 'rlcs':
        L = c.pos('Ls', .3, 3)*1e-7
        return (lambda: rf.rfRLC(Ls=L, ports=['u', 'v'], **kw)), fs, ['u', 'v'], Z0
    if kind in ('arc', 'arcd'):
        L = c.pos('La', .3, 3)*1e-8
        return (lambda: rf.rfArcObj(L, **({'ports': ['x']} if kind == 'arc' else {}), **kw)), fs, ['x'] if kind == 'arc' else ['1'], Z0
    if kind == 'arco': return (lambda: rf.rfArcObj(**kw)), fs, ['1'], Z0
    if kind in ('cpl', 'cpl0', 'cplL'):
        k = {'kc': .6, 'f0Hz': fs[1]} if kind == 'cpl' else {'Lc': c.pos('Lc', .5, 1.5), 'ports': ['d', 'c', 'b', 'a']} if kind == 'cplL' else {}
        return (lambda: rf.rfCoupler(**dict(k, **kw))), fs, ['A1', 'A2', 'B1', 'B2'] if kind != 'cplL' else ['d', 'c', 'b', 'a'], Z0
    if kind in ('circ', 'circZ', 'nested', 'nested2'):
        Zi = c.pos('Zi', 5, 60); Zx = c.pos('Zx', 5, 60)
        v = c.cplx('v', .5)
        def mk():
            o = rf.rfCircuit(Id='C', **(kw if kind != 'circZ' else {}))
            o.addblock('A', rf.rfBase(Ss=list(Ms), fs=list(fs), ports=list(names), Zbase=Zi))
            o.addblock('R', rf.rfRLC(Ls=Zx*1e-8, Zbase=Zx))
            o.connect('A.q', 'R.s')
            if n > 1: o.terminate('A.B', RC=v)
            return o
        ps = ['R.p']+[f'A.{p}' for p in names[2:]]
        ps = [f'A.{p}' for p in names[2:]]+['R.p']
        if kind in ('circ', 'circZ'): return mk, fs, ps, Z0 if kind == 'circ' else 50.
        def mk2():
            p = rf.rfCircuit(Zbase=Zx, Id='P', Portnames=['out']+[f'I.{q}' for q in ps[:-1]])
            p.addblock('I', mk())
            p.connect('I.R.p', 'out')
            return p
        if kind == 'nested': return mk2, fs, ['out']+[f'I.{q}' for q in ps[:-1]], Zx
        def mk3():
            p = rf.rfCircuit(Id='Q', **kw); p.addblock('J', mk2()); return p
        return mk3, fs, [f'J.{q}' for q in ['out']+[f'I.{q}' for q in ps[:-1]]], Z0
    if kind in ('gtl', 'gtl1', 'gtlv'):
        from .c21 import write
        v = {k: c.pos(k, *r) for k, r in (('Zg', (10, 90)), ('Lg', (.2, 2)), ('Lq', (.2, 2)), ('Lsg', (5, 50)), ('Cpg', (5, 50)), ('Tg', (1, 40)))}
        M = {'A': {'Portnames': ['in', 'n'], 'Z0TL': v['Zg'], 'L': v['Lg']}, 'B': {'ports': ['n', {'Z': v['Tg']}], 'Z': 30., 'length': v['Lq']}}
        if kind != 'gtl1': M['C'] = {'ports': ['n', 'out'], 'Ls': v['Lsg'], 'Cp': v['Cpg']}
        if kind == 'gtlv': M['A']['L'] = '2*len'
        ports = ['out', 'in'] if kind != 'gtl1' else ['in']
        if c.symbolic:
            for f in fs[kind == 'gtl1':]: c.assume(f != 45e6)     # the model evaluates itself there once
        name = write(c, {'M': {'Portnames': ports, 'variables': {'len': 1.5}, 'GTL': M}}, f'{kind}.mod')
        return (lambda: rf.rfGTL(name, objkey='M', **kw, **({'variables': {'len': v['Lg']}} if kind == 'gtlv' else {}))), fs, list(ports), Z0
    if kind == 'gtls':
        # a model with measured data
        from .c21 import write
        Ms = [c.cmat(f'S{i}_', 2) for i in range(3)]
        def num(x): return f'{x}' if c.symbolic else repr(float(x))
        if not c.symbolic: fs = [round(f/1e3)*1e3+k*1e3 for k, f in enumerate(fs)]
        R = c.pos('Rf', 20, 70)
        c.assume(R != Z0); c.assume(R != 50.); c.assume(Z0 != 50.)
        if c.symbolic:
            for f in fs: c.assume(f != 45e6)
        with c.printing():
            L = ['! measured', '# HZ S RI R '+num(R)]
            for f, X in zip(fs, Ms): L.append(' '.join([num(f)]+[num(v) for z in X.T.flat for v in (c.np.real(z), c.np.imag(z))]))
            t = '\n'.join(L)+'\n'
        with open('d.s2p', 'w') as g: g.write(t)
        name = write(c, {'M': {'Portnames': ['out', 'in'], 'sNp': 'd.s2p', 'GTL': {'A': {'Portnames': ['in', 'out'], 'Z0TL': 30., 'L': 1.3}}}}, f'{kind}.mod')
        c.table = [reref(c, X, R, Z0) for X in Ms]
        return (lambda: rf.rfGTL(name, objkey='M', **kw)), fs, ['out', 'in'], Z0
    raise ValueError(kind)

def dup(c, mk, how):
    if how == 'copy': return lambda: mk().copy()
    if how == 'pickle': return lambda: pickled(c, mk())
    if how == 'used':
        def f():
            o = mk(); o.getS(o_f[0]); return o
    return mk

def dom(kind, c, f):
    return f

def common(c, kind, n, order, how=None, seq='list'):
    np = c.np
    mk, fs, ports, Z0 = maker(c, kind, n)
    if how: mk = dup(c, mk, how)
    o = mk()
    N = len(ports)
    c.true('length', len(o) == N)
    c.eq('ports', (sorted if kind == 'nested' else list)(o.ports), (sorted if kind == 'nested' else list)(ports))      # announced ports are in their order once evaluated
    c.eq('own reference', o.Zbase, Z0)
    c.eq('positions', len(o.xpos), N)
    single = {}
    for k in sorted(set(order)):
        try: single[k] = mk().getS(fs[k])
        except (RuntimeError, ZeroDivisionError): c.assume(False)
        c.eq(f'size {k}', tuple(np.shape(single[k])), (N, N))
        if c.table: c.eq(f'tabulated {k}', single[k], c.table[k], 1e-12, 0)
    l = [fs[k] for k in order]
    q = {'list': lambda: l, 'tuple': lambda: tuple(l), 'array': lambda: np.array(l)}[seq]()
    R = o.getS(q)
    c.eq('as many', len(R), len(order))
    for i, k in enumerate(order): c.eq(f'entry {i}', R[i], single[k])
    c.eq('after', o.getS(fs[order[0]]), single[order[0]])
    c.eq('ports of the matrices', list(o.ports), ports)
    # other references
    Z = c.pos('Zr', 10, 90)
    for k in sorted(set(order)): c.eq(f're-referenced {k}', o.getS(fs[k], Zbase=Z), reref(c, single[k], Z0, Z))
    R = o.getS(q, Zbase=Z)
    c.eq('as many', len(R), len(order))
    for i, k in enumerate(order): c.eq(f're-referenced entry {i}', R[i], reref(c, single[k], Z0, Z))
    k = order[-1]
    c.eq('own reference asked for', o.getS(fs[k], Zbase=Z0), single[k])
    c.eq('own reference asked for, list', o.getS([fs[k]], Zbase=Z0)[0], single[k])
    c.eq('own after', o.getS(fs[k]), single[k])
    c.true('length after', len(o) == N); c.eq('ports after', list(o.ports), ports); c.eq('own reference after', o.Zbase, Z0)

def scaled(c, kind, e):
    """the same at other orders of magnitude of frequency (and of the elements that go with it), with frequencies close to each other"""
    rf, np = c.rf, c.np
    s = 10.**e
    f0 = c.pos('f0', 25, 70)*1e6*s
    fs = [f0, f0*(1+c.between('d', .001, .04)), f0*c.between('h', 1.1, 1.9), f0]
    el = {'Ls': c.pos('Ls', .3, 3)*1e-7/s, 'Cs': c.pos('Cs', .3, 3)*1e-10/s, 'Rp': c.pos('Rp', 20, 90)}
    L, Z0 = c.pos('L', .2, 2)/s, c.pos('Zb', 10, 80)
    if kind == 'trl': mk = lambda: rf.rfTRL(L=L, Z0TL=30., Zbase=Z0)
    elif kind == 'lossy': mk = lambda: rf.rfTRL(L=L, rTL=.5*s, LTL=2e-7, CTL=8e-11, gTL=1e-3*s, Zbase=Z0)
    elif kind == 'rlc': mk = lambda: rf.rfRLC(Zbase=Z0, **el)
    elif kind == 'arc': mk = lambda: rf.rfArcObj(el['Ls'], Zbase=Z0)
    elif kind == 'obj':
        Ms = [c.cmat(f'S{k}', 2) for k in range(3)]
        def mk():
            o = rf.rfObject(ports=['a', 'b'], Zbase=Z0)
            for f, M in zip(fs, Ms): o.setS(f, M)
            return o
    else:
        def mk():
            o = rf.rfCircuit(Zbase=Z0); o.addblock('R', rf.rfRLC(**el)); o.addblock('T', rf.rfTRL(L=L, Z0TL=30.)); o.addblock('A', rf.rfArcObj(el['Ls']))
            o.connect('R.s', 'T.1', f'A.{rf.rfArcObj(el["Ls"]).ports[0]}', 'n')
            return o
    one = [mk().getS(f) for f in fs]
    R = mk().getS(list(fs)); Q = mk().getS(fs[::-1]); o = mk()
    for k, f in enumerate(fs):
        c.eq('list', R[k], one[k], 1e-12, 1e-12); c.eq('reversed', Q[3-k], one[k], 1e-12, 1e-12); c.eq('one after the other', o.getS(f), one[k], 1e-12, 1e-12)
        c.eq('re-referenced', mk().getS(f, Zbase=3*Z0), reref(c, one[k], Z0, 3*Z0))

def placed(c, kind, n, order, nest=0, renamed=False):
    """alone in a circuit of another reference"""
    np = c.np
    mk, fs, ports, Z0 = maker(c, kind, n)
    one = {}
    for k in sorted(set(order)):
        try: one[k] = mk().getS(fs[k])
        except (RuntimeError, ZeroDivisionError): c.assume(False)
    Zc = c.pos('Zc', 5, 60)
    o = c.rf.rfCircuit(Zbase=Zc, Id='C')
    ren = {p: f'm{k}' for k, p in enumerate(ports)} if renamed else {}
    o.addblock('A', mk(), **({'ports': dict(ren) if renamed != 'list' else list(ren.values())} if ren else {}))
    names = [f'A.{ren.get(p, p)}' for p in ports]
    for d in range(nest):
        z = c.pos(f'Zn{d}', 5, 60)
        q = c.rf.rfCircuit(Zbase=z, Id=f'N{d}'); q.addblock('W', o); o = q; names = [f'W.{p}' for p in names]; Zc = z
    c.eq('ports', list(o.ports), names) if nest == 0 else None
    hz = [f*(U['MHz'] if kind == 'objunit' else 1) for f in fs]
    for k in sorted(set(order)):
        M = o.getS(hz[k])
        c.eq('ports', list(o.ports), names); c.true('length', len(o) == len(ports))
        c.eq(f'S {k}', M, reref(c, one[k], Z0, Zc))
    R = o.getS([hz[k] for k in order])
    for i, k in enumerate(order): c.eq(f'entry {i}', R[i], reref(c, one[k], Z0, Zc))
    Z = c.pos('Zr', 10, 90)
    c.eq('re-referenced', o.getS(hz[order[0]], Zbase=Z), reref(c, one[order[0]], Z0, Z))

KINDS = [('base', (1, 2, 3)), ('noz', (2,)), ('obj', (1, 2, 3)), ('objint', (1, 2)), ('objunit', (2,)), ('objre', (2,)), ('trl', (2,)), ('trl0', (2,)), ('taper', (2,)), ('rlc', (2,)), ('rlcs', (2,)),
         ('arc', (1,)), ('arcd', (1,)), ('arco', (1,)), ('cpl', (4,)), ('cpl0', (4,)), ('cplL', (4,)), ('circ', (1, 3, 4)), ('circZ', (3,)), ('nested', (1, 3)), ('nested2', (3,)),
         ('gtl', (2,)), ('gtl1', (1,)), ('gtlv', (2,)), ('gtls', (2,))]
def scenarios(tier):
    L = []; big = tier != 'quick'
    orders = [(0, 1, 2), (2, 1, 0), (1, 1), (0, 2, 0, 2), (2,)]
    i = 0
    for kind, ns in KINDS:
        heavy = kind in ('cpl', 'cpl0', 'cplL')
        for n in ns+((4,) if big and kind in ('base', 'obj', 'nested') else ()):
            for j, od in enumerate(orders):
                i += 1
                if kind == 'taper': od = od[:1]
                if heavy and j % 2 and not big: continue
                if heavy or kind in ('gtl', 'gtlv', 'gtls'): od = od[:2]
                how = (None, None, 'copy', None, 'pickle')[i % 5]
                if kind == 'taper': how = None
                if how == 'pickle' and kind[:3] not in ('bas', 'noz', 'obj', 'arc', 'cpl'): how = 'copy'
                L.append(S(f'{kind} {n} {od} {how} {j}', common, dict(kind=kind, n=n, order=od, how=how, seq=('list', 'array', 'tuple')[i % 3]), target=T, conc=3))
                if j < 3 or big:
                    L.append(S(f'placed {kind} {n} {od} {j}', placed, dict(kind=kind, n=n, order=od, nest=(0, 0, 1, 2)[(i+j) % 4], renamed=(False, True, 'list')[(i+2*j) % 3]), target=T, conc=3, sym=kind != 'gtls'))
    for kind in ('trl', 'lossy', 'rlc', 'arc', 'obj', 'circ'):
        for e in (-9, -7, -5, -2, 2, 4, 7): L.append(S(f'scaled {kind} {e}', scaled, dict(kind=kind, e=e), target=T, sym=False, conc=2))
    # long lists: concrete only
    for k, (kind, ns) in enumerate(KINDS):
        if kind == 'taper': continue
        rng = random.Random(f'c22/{kind}')
        od = tuple(rng.randrange(3) for _ in range(rng.randint(9, 25)))
        L.append(S(f'large {kind}', common, dict(kind=kind, n=ns[-1], order=od, seq=('list', 'array', 'tuple')[k % 3]), target=T, sym=False, conc=1))
        L.append(S(f'large placed {kind}', placed, dict(kind=kind, n=ns[-1], order=od, nest=3+k % 2, renamed=(False, True, 'list')[k % 3]), target=T, sym=False, conc=1))
    return L
