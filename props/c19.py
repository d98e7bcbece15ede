"""C19 logging changes nothing"""
import copy as _copy, random, sys, os, types
from vc.api import S
from . import _world as w
LEVEL = 'other'
BOUNDS = ('circuits of up to 3 blocks per level, 3 levels and about 8 ports, single objects of every kind, histories of up to 6 actions and 40 kinds of requests that cannot be '
          'fulfilled, model files, touchstone texts and plots on given examples; all numbers symbolic where the code is executed symbolically; all named levels and unnamed integers')
EXPLANATION = ('two objects built from the same symbolic data go through the same history, one with logging off and one with debug (or another level) on; each step is proved to have '
               'the same outcome, result or exception, and the same effect on later results.')
TRUSTED = ['symbolic runs: inspect.getouterframes is replaced by one giving the same frames without source text, and numbers printed by strM by arbitrary ones']
T = ('setLogLevel,logident,ident,rfBase.__init__,rfBase.getS,rfBase.__get1S__,rfCircuit.__init__,rfCircuit.set,rfCircuit.addblock,rfCircuit.connect,rfCircuit.terminate,rfCircuit.getS,'
     'rfCircuit.Solution,rfCircuit.maxV,rfCircuit.Get_internalSmatrix,rfCircuit.deembed,rfRLC.getS,rfTRL.getS,rfArcObj.__init__,rfCoupler.__init__,rfGTL.__init__,maxfun,ReadTSF,ConvertGeneral')
LEVELS = ('DEBUG', 10, 5, 15, 'INFO', 'WARNING', 'ERROR', 60, 1, 'NOTSET')

class Log:
    """runs something at a level"""
    def __init__(s, c, lvl='DEBUG'):
        s.c, s.lvl, s.cf = c, lvl, c.mod('config')
        if c.symbolic: s.sym()
        def back():
            s.cf.setLogLevel('CRITICAL')
            for f in ('ident', 'logident'):
                if hasattr(s.cf, f) and hasattr(getattr(s.cf, f), 'N'): getattr(s.cf, f).N = 0
        c.cleanups.append(back)
    def sym(s):
        import inspect, logging
        from vc import term as T
        for h in logging.getLogger().handlers: h.setFormatter(logging.Formatter('%(message).20s'))
        if hasattr(s.cf, 'inspect'):
            m = types.SimpleNamespace(**{k: getattr(inspect, k) for k in dir(inspect) if not k.startswith('__')})
            def frames(f, context=1):
                out = []
                while f is not None and len(out) < 20:
                    out.append(inspect.FrameInfo(f, f.f_code.co_filename, f.f_lineno, f.f_code.co_name, None, None)); f = f.f_back
                return out
            m.getouterframes = frames
            s.c.contract('config', 'inspect', m)
        done = {}
        for n, md in list(s.c.loader.mods.items()):
            g = md.__dict__.get('strM')
            if g is None or n.endswith('printMatrices') and n != 'pyRFtk.printMatrices' or not isinstance(g, types.FunctionType): continue
            def f(*a, _g=g, **k):
                p = T.PRINTING[0]; T.PRINTING[0] = True
                if 'printzeros' in inspect.signature(_g).parameters and len(a) < 4: k = {**k, 'printzeros': ''}
                try:
                    with s.c.onepath(): return _g(*a, **k)
                finally: T.PRINTING[0] = p
            s.c.patched.append((md, 'strM', g)); md.strM = f
    def on(s, f):
        s.cf.setLogLevel(s.lvl)
        try: return s.c.call(f)
        finally: s.cf.setLogLevel('CRITICAL')
    def off(s, f): return s.c.call(f)
    def same(s, label, f, g=None):
        """f without logging, g (a second object's f) with"""
        (e1, r1), (e2, r2) = s.off(f), s.on(g or f)
        if e1 or e2: s.c.true(f'{label}: {e1} as {e2}', e1 == e2)
        else: s.c.eq(label, plain(r2), plain(r1))
        return r1, r2

def plain(x):
    """results as data (no objects)"""
    if type(x).__name__ == 'SBool': return bool(x)
    if isinstance(x, (list, tuple)): return [plain(y) for y in x]
    if isinstance(x, dict): return {str(k): plain(y) for k, y in x.items()}
    if x is None or isinstance(x, (str, bool, int, float, complex)) or hasattr(x, 'shape'): return x
    return 'object'

def run(c, d, hist, lvl='DEBUG'):
    v = w.Vals(c)
    g = Log(c, lvl)
    d1, d2 = _copy.deepcopy(d), _copy.deepcopy(d)
    o1, o2 = w.make(c, v, d1), None
    e, o2 = g.on(lambda: w.make(c, v, d2))
    c.true(f'built {e}', e is None)
    if o2 is None: return
    for n, a in enumerate(hist+w.observe(o1, d)):
        g.same(f'{n} {a[0]}', lambda: w.act(c, v, d1, o1, a), lambda: w.act(c, v, d2, o2, a))
    for k in ('__len__', '__str__'): g.same(k, lambda: getattr(o1, k)() and 0 if k == '__str__' else len(o1), lambda: getattr(o2, k)() and 0 if k == '__str__' else len(o2))

def Ln(c):
    L = c.pos('L', .2, 1.9)
    c.assume(L < 2.)
    return L

def world(c):
    rf = c.rf
    o = rf.rfCircuit(Id='C')
    o.addblock('A', rf.rfBase(Ss=[c.cmat('A', 3)], fs=[w.F1], ports=w.pnames(3)))
    i = rf.rfCircuit(Id='I'); i.addblock('q', rf.rfBase(Ss=[c.cmat('q', 2)], fs=[w.F1], ports=w.pnames(2))); i.addblock('T', rf.rfTRL(L=Ln(c), Z0TL=40., dx=-2.))
    i.connect('q.b', 'T.1')
    o.addblock('I', i); o.addblock('R', rf.rfRLC(Ls=c.pos('Ls', .3, 3)*1e-7)); o.addblock('N', c.cmat('N', 2), ports=['u', 'v'])
    o.connect('A.a', 'I.q.a', 'n')
    return o

def requests(c):
    """name, f(circuit): requests that cannot be fulfilled, or unusual ones"""
    rf, np = c.rf, c.np
    tab = lambda n: rf.rfBase(Ss=[c.cmat(f'B{n}', n)], fs=[w.F1], ports=w.pnames(n))
    E = lambda o: {p: c.cplx('e'+p) for p in o.ports}
    Z = c.pos('Z', 5, 60)
    return {
     'connect unknown': lambda o: o.connect('A.b', 'Q.a'), 'connect used': lambda o: o.connect('A.b', 'A.a'), 'connect two new': lambda o: o.connect('A.b', 'x', 'y'),
     'connect none': lambda o: o.connect(), 'connect one': lambda o: o.connect('A.b'), 'connect dot': lambda o: o.connect('A.b', 'x.y'),
     'connect twice': lambda o: o.connect('A.b', 'A.b'), 'rename': lambda o: o.connect('A.b', 'new'),
     'terminate unknown': lambda o: o.terminate('Q.a', RC=.5), 'terminate used': lambda o: o.terminate('A.a', Z=Z), 'terminate two': lambda o: o.terminate('A.b', Z=Z, Y=1/Z),
     'terminate': lambda o: o.terminate('A.b', Z=Z), 'terminate default': lambda o: o.terminate('A.b'), 'terminate what': lambda o: o.terminate('A.b', X=3.),
     'add mapping': lambda o: o.addblock('K', tab(2), ports={'a': 'x', 'z': 'y'}), 'add list': lambda o: o.addblock('K', tab(2), ports=['x']),
     'add array': lambda o: o.addblock('K', c.cmat('K', 2)), 'add array list': lambda o: o.addblock('K', c.cmat('K', 2), ports=['x']), 'add array dict': lambda o: o.addblock('K', c.cmat('K', 2), ports={'1': 'x'}),
     'add array ok': lambda o: o.addblock('K', c.cmat('K', 2), ports=['x', 'y'], relpos=2.), 'add nothing': lambda o: o.addblock('K', None), 'add number': lambda o: o.addblock('K', 3.),
     'replace size': lambda o: o.addblock('A', tab(2)), 'replace': lambda o: o.addblock('A', tab(3)), 'replace deep': lambda o: o.addblock('I.q', tab(2)), 'replace deep unknown': lambda o: o.addblock('I.z', tab(2)),
     'replace array': lambda o: o.addblock('N', c.cmat('K', 2)), 'add dotted': lambda o: o.addblock('X.y', tab(2)),
     'set unknown': lambda o: o.set('Q.L', 1.), 'set attr': lambda o: o.set('R.nope', 1.), 'set odd': lambda o: o.set('R.Ls'), 'set kw': lambda o: o.set(R={'Ls': 2e-7, 'nope': 1.}), 'set array': lambda o: o.set('N.L', 1.),
     'set number': lambda o: o.set(5), 'set table': lambda o: o.set('A.S', 1.), 'set deep': lambda o: o.set({'I.T.L': 1.5}), 'set tuple': lambda o: o.set(('I.T', {'L': 1.4})), 'set nothing': lambda o: o.set({}),
     'set nested': lambda o: o.set('I', {'T': {'L': 1.3}}), 'set self': lambda o: o.set(L=3.),
     'params': lambda o: o.getS(w.F1, params={'R': {'nope': 1.}}), 'params block': lambda o: o.getS(w.F1, params={'Q': {'Ls': 1.}}), 'params ok': lambda o: o.getS(w.F1, params={'R': {'Ls': 3e-7}}),
     'params table': lambda o: o.getS(w.F1, params={'A': {'x': 1}}), 'params line': lambda o: o.getS(w.F1, params={'I': {'T': {'L': .7}}}),
     'frequency': lambda o: o.getS(w.F2), 'frequencies': lambda o: o.getS([w.F1, w.F2]), 'no frequency': lambda o: o.getS([]), 'none': lambda o: o.getS(None), 'text': lambda o: o.getS('x'),
     'flags': lambda o: o.getS(w.F1, flags={'nope': 1}), 'flags sNp': lambda o: o.getS(w.F1, flags={'sNp': False}), 'Zbase': lambda o: o.getS(w.F1, Zbase=Z),
     'solution': lambda o: o.Solution(w.F1, E(o)), 'solution missing': lambda o: o.Solution(w.F1, {o.ports[0]: 1.}), 'solution more': lambda o: o.Solution(w.F1, {**E(o), 'zz': 1.}), 'solution nodes': lambda o: o.Solution(w.F1, E(o), nodes=['A.a', 'R.s']),
     'solution unknown nodes': lambda o: o.Solution(w.F1, E(o), nodes=['zz']), 'solution frequency': lambda o: o.Solution(w.F2, E(o)), 'solution Zbase': lambda o: o.Solution(w.F1, E(o), Zbase=Z), 'solve': lambda o: o.solve(w.F1, E(o)),
     'maxV missing': lambda o: o.maxV(w.F1, {o.ports[0]: 1.}), 'maxV more': lambda o: o.maxV(w.F1, {**E(o), 'zz': 1.}),
     'internal': lambda o: o.Get_internalSmatrix(w.F1, ['A.a', 'R.s']), 'internal many': lambda o: o.Get_internalSmatrix(w.F1, ['A.a', 'A.b', 'A.c', 'n', 'R.s', 'R.p', 'N.u', 'I.q.a', 'I.q.b']), 'internal unknown': lambda o: o.Get_internalSmatrix(w.F1, ['zz']),
     'internal none': lambda o: o.Get_internalSmatrix(w.F1, []),
     'position': lambda o: o.getpos('A.b'), 'position deep': lambda o: [o.getpos('I.q.b'), o.getpos('n'), o.getpos('I.T.1')], 'position unknown': lambda o: o.getpos('Z.b'), 'position deep unknown': lambda o: o.getpos('I.q.zz'),
     'findObj': lambda o: o.findObj('I.q') is o.blocks['I']['object'].blocks['q']['object'] if hasattr(o, 'findObj') else 0, 'findObj unknown': lambda o: o.findObj('I.z'),
     'deembed': lambda o: o.deembed({'A.b': 'm'}, {'A.c': 'R.s'}), 'deembed unknown': lambda o: o.deembed({'A.b': 'm'}, {'zz': 'R.s'}), 'deembed list': lambda o: o.deembed([('A.b',)]), 'deembed none': lambda o: o.deembed({}, {}),
     'copy': lambda o: o.copy().getS(w.F1), 'str': lambda o: str(o) and 0, 'len': lambda o: len(o), 'get1S': lambda o: o.getS(w.F1), 'state': lambda o: o._state if hasattr(o, '_state') and isinstance(o._state, (int, str)) else 0,
     'bad announced': lambda o: c.rf.rfCircuit(Portnames=['a', 'b']).getS(w.F1), 'empty': lambda o: c.rf.rfCircuit().getS(w.F1),
     'keyword': lambda o: c.rf.rfCircuit(nope=1), 'table keyword': lambda o: rf.rfBase(nope=1), 'table shape': lambda o: rf.rfBase(Ss=[c.cmat('A', 3)], fs=[w.F1, w.F2]), 'table ports': lambda o: rf.rfBase(Ss=[c.cmat('A', 3)], fs=[w.F1], ports=['a']),
     'rlc keyword': lambda o: rf.rfRLC(nope=1), 'line keyword': lambda o: rf.rfTRL(nope=1), 'line short': lambda o: rf.rfTRL(L=1.), 'line over': lambda o: rf.rfTRL(L=1., Z0TL=40., LTL=1e-7, CTL=1e-10), 'arc': lambda o: rf.rfArcObj(), 'arc args': lambda o: rf.rfArcObj(1e-8, 2, ports=['x']).getS(w.F1), 'arc keyword': lambda o: rf.rfArcObj(1e-8, nope=1),
     'arc object': lambda o: rf.rfArcObj(1e-8, ports=['x']).getS([w.F1, w.F2]), 'coupler': lambda o: rf.rfCoupler(), 'coupler ok': lambda o: rf.rfCoupler(kc=.3, f0Hz=w.F1).getS(w.F2), 'coupler keyword': lambda o: rf.rfCoupler(kc=.3, f0Hz=w.F1, nope=2),
     'coupler set': lambda o: rf.rfCoupler(kc=.3, f0Hz=w.F1).set(kc=.2), 'object': lambda o: rf.rfObject(nope=1), 'object table': lambda o: tobj(c).getS([w.F2, w.F1], Zbase=Z), 'object other': lambda o: tobj(c).getS(w.F1/2),
     'object deembed': lambda o: after(tobj(c), lambda x: x.deembed({'a': (Ln(c), Z)})), 'object deembed bad': lambda o: tobj(c).deembed({'zz': .3}), 'object deembed kind': lambda o: tobj(c).deembed({'a': 'x'}),
     'object sort': lambda o: after(tobj(c), lambda x: x.sortports(['b', 'a'])), 'object sort bad': lambda o: tobj(c).sortports(['b', 'z']), 'object maxV': lambda o: tobj(c).maxV(w.F1, {'a': c.cplx('q'), 'b': c.cplx('r')})[:2], 'object maxV bad': lambda o: tobj(c).maxV(w.F1, {'a': 1.}),
     'table maxV': lambda o: list(tab(2).maxV(w.F1, {'a': c.cplx('q')})[2].values()), 'table maxV bad': lambda o: tab(2).maxV(w.F1, {'zz': c.cplx('q')}), 'table frequency': lambda o: tab(2).getS(w.F2), 'table Zbase': lambda o: tab(2).getS(w.F1, Zbase=Z), 'table params': lambda o: tab(2).getS(w.F1, params={'a': 1}),
     'table set': lambda o: tab(2).set(x=1), 'rlc set': lambda o: rf.rfRLC(Rs=1.).set(x=1), 'rlc': lambda o: rf.rfRLC(Rs=1., Cs=1e-10, Rp=30.).getS([w.F1, w.F2], Zbase=Z), 'rlc zero': lambda o: rf.rfRLC(Rs=1., Cp=1e-10).getS(0.), 'rlc params': lambda o: rf.rfRLC(Rs=1.).getS(w.F1, params={'no': 1}),
     'line': lambda o: rf.rfTRL(L=Ln(c), Z0TL=Z, dx=-2.).getS([w.F1, w.F2]), 'line params': lambda o: rf.rfTRL(L=Ln(c), Z0TL=Z, dx=-2.).getS(w.F1, params={'L': 1.7}), 'line VISWs': lambda o: rf.rfTRL(L=Ln(c), Z0TL=Z, dx=-2.).VISWs(w.F1, {'1': 1., '2': .5}),
     'line missing': lambda o: rf.rfTRL(L=Ln(c), Z0TL=Z, dx=-2.).VISWs(w.F1, {'1': 1.}), 'line set': lambda o: rf.rfTRL(L=Ln(c), Z0TL=Z, dx=-2.).set(nope=1),
     'conversions': lambda o: [getattr(rf, n)(c.cmat('B2', 2), Z) for n in ('S_from_Z', 'Z_from_S', 'S_from_Y', 'Y_from_S')], 'general 2': lambda o: rf.ConvertGeneral([Z, 20.], c.cmat('B2', 2), 30., 'G', 'P'), 'general 3': lambda o: rf.ConvertGeneral(Z, [c.cmat('B2', 2)], [30., 20.]), 'general 1': lambda o: rf.ConvertGeneral(Z, [c.cplx('q')], 30.),
     'general 0': lambda o: rf.ConvertGeneral(Z, c.cplx('q'), 30.), 'general type': lambda o: rf.ConvertGeneral(Z, c.cmat('B2', 2), 30., 'X'), 'general shape': lambda o: rf.ConvertGeneral([Z]*3, c.cmat('B2', 2), 30.),
     'general dims': lambda o: rf.ConvertGeneral([[Z]*3], c.cmat('B2', 2), 30.), 'maxfun': lambda o: one(c, lambda: rf.maxfun([0., 1., 2., 3.], [c.pos(f'y{i}') for i in range(4)])), 'maxfun lengths': lambda o: rf.maxfun([0., 1.], [c.pos(f'y{i}') for i in range(3)]), 'maxfun 0': lambda o: rf.maxfun([], []),
     'maxfun 1': lambda o: rf.maxfun([1.], [2.]), 'maxfun 2': lambda o: one(c, lambda: rf.maxfun([1., 2.], [c.pos('y0'), c.pos('y1')])),
    }
def one(c, f):
    with c.onepath(): return f()
def after(x, f): r = f(x); return [list(x.ports), x.getS([w.F1, w.F2]), list(x.xpos)]
def tobj(c):
    o = c.rf.rfObject(ports=['a', 'b'], Zbase=30.)
    o.setS(w.F2, c.cmat('P', 2)); o.setS(w.F1, c.cmat('Q', 2))
    return o

def request(c, names, lvl):
    g = Log(c, lvl)
    R = requests(c)
    o1, o2 = world(c), g.on(lambda: world(c))[1]
    for n in names:
        with c.onepath(): g.same(n, lambda: R[n](o1), lambda: R[n](o2))
    g.same('S', lambda: o1.getS(w.F1), lambda: o2.getS(w.F1))
    g.same('ports', lambda: [list(o1.ports), list(o1.xpos)], lambda: [list(o2.ports), list(o2.xpos)])

# --- with files, plots and differential equations (given numbers) --------------------------
GTL = {
 'plain': "{'variables': {'Lx': .5, 'Z': '2*15'}, 'Portnames': ['in', 'out'], 'GTL': {'A': {'ports': ['in', 'm'], 'L': 'Lx', 'Z': 'Z'}, 'B': {'ports': ['m', 'out'], 'L': .3, 'Z': 20.}}}",
 'lumped': "{'Portnames': ['in'], 'GTL': {'A': {'ports': ['in', 'm'], 'L': .2, 'Z': 30}, 'C': {'ports': ['m', '[sc]'], 'Ls': 20., 'Rs': 1.}, 'D': {'ports': ['m', '[oc]'], 'L': .4, 'Z': 50}}}",
 'mismatch': "{'nports': 3, 'Portnames': ['in', 'out'], 'GTL': {'A': {'ports': ['in', 'out'], 'L': .2, 'Z': 30}}}",
 'undeclared': "{'Portnames': ['in', 'nope'], 'GTL': {'A': {'ports': ['in', 'out'], 'L': .2, 'Z': 30}}}",
 'variable': "{'Portnames': ['in', 'out'], 'GTL': {'A': {'ports': ['in', 'out'], 'L': 'nope', 'Z': 30}}}",
 'syntax': "{'Portnames': ['in', 'out'",
 'geometry': "{'Portnames': ['in', 'out'], 'GTL': {'A': {'ports': ['in', 'out'], 'L': .2, 'ID': 100., 'OD': 230., 'rho': .02, 'epsr': 1.5}}}",
}
TSF = {
 'two': '! c\n# MHz S MA R 50\n45 .5 10 .1 20 .2 30 .4 40\n50 .5 11 .1 21 .2 31 .4 41\n',
 'one': '# GHz S RI R 30\n.045 .1 .2\n.05 .2 .3\n',
 'default': '#\n45 .5 10\n50 .5 11\n',
 'dB': '# kHz S DB\n45e3 -3 10\n', 'Z': '# Hz Z RI R 50\n45e6 10 20\n', 'Y': '# Hz Y MA R 20\n45e6 10 20\n', 'noise': '# Hz S RI R 50\n! comment\n\n45e6 .1 .2 ! more\n',
 'broken': '# MHz S MA R 50\n45 .5 10 .1\n', 'text': 'nothing', 'empty': '', 'unit': '# THz S MA R 50\n45 .5 10\n', 'three': '# MHz S RI R 50\n45 .1 .2 .3 .4 .5 .6\n.1 .2 .3 .4 .5 .6\n.1 .2 .3 .4 .5 .6\n',
 'odd': '# MHz S RI R 50\n45 .1 x\n', 'ports': '!PORTS u, v\n# MHz S MA R 50\n45 .5 10 .1 20 .2 30 .4 40\n', 'bracket': '[Version] 2.0\n# MHz S MA R 50\n45 .5 10\n',
}
def given(c, kind, key, lvl):
    rf = c.rf
    g = Log(c, lvl)
    pid = f'{os.getpid()}_{key}'
    if kind == 'gtl':
        fn = f'm{pid}.txt'
        with open(fn, 'w') as f: f.write(GTL[key])
        def do():
            o = rf.rfGTL(fn)
            E = {p: 1.+.5j*i for i, p in enumerate(o.ports)}
            r = [list(o.ports), o.getS([w.F1, w.F2]), o.getS(w.F1, Zbase=20.), len(o), list(o.xpos), o.maxV(w.F1, E)[:2]]
            q = o.copy(); r.append(q.getS(w.F1))
            k = rf.rfCircuit(); k.addblock('G', o); r.append(k.getS(w.F2)); r.append(k.getpos(k.ports[0])); str(o); o.__str__(1) if 0 else None
            return r
        g.same(key, do)
        g.same(key+' with variables', lambda: rf.rfGTL(fn, variables={'Lx': .7}).getS(w.F1))
        g.same(key+' bad variable', lambda: rf.rfGTL(fn, variables={'zz': .7}).getS(w.F1))
        g.same('no file', lambda: rf.rfGTL('nofile'))
        os.remove(fn)
    if kind == 'tsf':
        rd = lambda **k: {q: (x if q != 'Ss' and q != 'fs' else x) for q, x in rf.ReadTSF(TSF[key], **k).items() if q in ('Ss', 'fs', 'Zbase', 'ports', 'markers')}
        g.same(key, rd); g.same(key+' at', lambda: rd(Zbase=20., funit='MHz')); g.same(key+' ports', lambda: rd(ports=['x', 'y']))
        def obj():
            o = rf.rfBase(touchstone=TSF[key]); f = list(o.fs)
            r = [o.getS(f), list(o.ports)]
            for fmt in ('# MHZ S MA R 50', '# Hz Z RI', '# GHz Y DB R 20'): r.append(o.tsf2str(tfmt=fmt, date=False) if 0 else [l for l in o.tsf2str(tfmt=fmt).split('\n') if not l.startswith('!')])
            return r
        g.same(key+' object', obj)
        fn = f't{pid}.s2p'
        with open(fn, 'w') as f: f.write(TSF[key])
        g.same(key+' file', lambda: rf.rfBase(touchstone=fn).getS(w.F1)); g.same(key+' rfObject', lambda: rf.rfObject(touchstone=fn).getS(w.F1))
        os.remove(fn)
    if kind == 'misc':
        import matplotlib; matplotlib.use('Agg')
        def circ():
            o = rf.rfCircuit(Id='top'); i = rf.rfCircuit(Id='in')
            i.addblock('T', rf.rfTRL(L=1.3, Z0TL=[30., 40., 35.], dx=.1)); i.addblock('U', rf.rfTRL(L=.5, OD=.2, ID=.1, rho=1e-7, sigma=1e-6)); i.connect('T.2', 'U.1', 'm')
            o.addblock('I', i, relpos=1.); o.addblock('R', rf.rfRLC(Cs=50e-12, Rp=10.), params={'Cs': 60e-12}); o.addblock('S', [[.1, .2], [.2, .1j]], ports=['a', 'b']); o.connect('I.m', 'R.s', 'S.a'); o.terminate('I.U.2', Z=30.)
            return o
        if key == 'circuit':
            def do():
                o = circ(); E = {p: 1.-.3j*k for k, p in enumerate(o.ports)}
                r = [list(o.ports), o.getS([w.F1, w.F2]), list(o.xpos), [list(t) if hasattr(t, '__iter__') and not isinstance(t, dict) else t for t in o.maxV(w.F1, E)], o.Solution(w.F1, E)]
                len(str(o)); len(o.__str__(1)); r += [o.getS(w.F1, flags={'sNp': False}), o.getpos('I.T.2')]
                return r
            g.same(key, do)
        if key == 'plot':
            def do():
                o = circ(); E = {p: 1.-.3j*k for k, p in enumerate(o.ports)}
                m, wh, vs = o.maxV(w.F1, E)[:3]
                len(rf.str_dict(vs)); return [rf.strVSW(vs)]      # str_dict repeats the text of earlier calls
            g.same(key, do)
            def do2():
                o = circ(); E = {p: 1.-.3j*k for k, p in enumerate(o.ports)}
                rf.plotVSWs(o.maxV(w.F1, E)[2]); import matplotlib.pyplot as pl; pl.close('all'); return 0
            g.same('plotVSWs', do2)
        if key == 'resolver':
            for kw in (dict(Z0TL=40., L=1.), dict(OD=.2, ID=.1, rho=1e-8), dict(LTL=2e-7, CTL=1e-10), dict(Z0TL=[30., 40.], L=1.), dict(Z0TL=40., Vr=.8, rTL=.1), dict(Z0TL=40., LTL=1e-7, CTL=1.), dict()):
                g.same(str(kw), lambda: [rf.TLresolver(**kw).rjwL(1e8, .3), rf.TLresolver(**kw).gjwC(1e8, .3)])
            g.same('tapered', lambda: rf.rfTRL(L=1.3, Z0TL=[30., 40., 35.], dx=.1).getS([w.F1, w.F2])); g.same('tapered set', lambda: rf.rfTRL(L=1.3, Z0TL=[30., 40., 35.], dx=.1).set(L=2.))
            g.same('tapered waves', lambda: list(rf.rfTRL(L=1.3, Z0TL=[30., 40., 35.], dx=.1).VISWs(w.F1, {'1': 1., '2': 1j})))
        if key == 'print':
            M = c.np.array([[.1+.2j, .3], [.2j, .4]])
            for n in ('strM', 'printM', 'printMA', 'printRI', 'printDB', 'printR'):
                if hasattr(rf, n): g.same(n, lambda: getattr(rf, n)(M))
            g.same('str_dict', lambda: rf.str_dict({'a': {'b': M}}) and 0); g.same('compareSs', lambda: rf.compareSs(w.F1, rf.rfBase(Ss=[M], fs=[w.F1]), rf.rfBase(Ss=[M], fs=[w.F1])) and 0 if hasattr(rf, 'compareSs') else 0)
        if key == 'levels':
            cf = c.mod('config')
            for l in LEVELS:
                cf.setLogLevel(l); c.true(f'{l} usable', rf.rfBase(Ss=[M1(c)], fs=[w.F1], ports=['a', 'b']).getS(w.F1) is not None)
            cf.setLogLevel('CRITICAL')
            c.raises('unknown level', lambda: cf.setLogLevel('NOPE'))
        if key == 'write':
            o = rf.rfBase(Ss=[M1(c), M1(c)*.5], fs=[w.F1, w.F2], ports=['a', 'b'])
            def do(kw, fmt):
                fn = f'w{pid}.s2p'
                try:
                    o.write_tsf(fn, **kw) if hasattr(o, 'write_tsf') else rf.WriteTSF(fn, dict(Ss=o.getS([w.F1, w.F2]), fs=[w.F1, w.F2], Zbase=50., ports=['a', 'b'], part='S'), tfmt=fmt)
                    with open(fn) as f: t = f.read()
                    return [l for l in t.split('\n') if not l.startswith('!')]
                finally:
                    if os.path.exists(fn): os.remove(fn)
            for fmt in ('# MHZ S MA R 50', '# Hz Z RI', '# GHz Y DB R 20', 'nope'): g.same(fmt, lambda: do({}, fmt))
def M1(c): return c.np.array([[.1+.2j, .3], [.2j, .4]])

def scenarios(tier):
    L = []
    q = tier == 'quick'
    lv = lambda i: 'DEBUG' if i % 3 else LEVELS[(i//3) % len(LEVELS)]
    for i, (d, h) in enumerate(w.worlds('c19', 60 if q else 600, 4 if q else 6)):
        L.append(S(f'circuit {i} {lv(i)}', run, dict(d=d, hist=h, lvl=lv(i)), target=T, conc=2, maxpaths=6, tl=30))
    for t in ('obj', 'trl', 'rlc', 'arc', 'tab'):
        for i, (d, h) in enumerate(w.worlds('c19'+t, 6 if q else 60, 4, root=t)):
            L.append(S(f'{t} {i} {lv(i)}', run, dict(d=d, hist=h, lvl=lv(i)), target=T, conc=2, maxpaths=6, tl=30))
    for t in ('gtl', 'in'):
        for i, (d, h) in enumerate(w.worlds('c19'+t, 6 if q else 60, 4, root=t)):
            L.append(S(f'model {t} {i} {lv(i)}', run, dict(d=d, hist=h, lvl=lv(i)), target=T+',rfGTL.__init__,rfGTL.getS', conc=2, maxpaths=6, tl=30))
    class C:
        def __getattr__(s, n): return s
        def __call__(s, *a, **k): return 1.
    names = list(requests(C()))
    for i, n in enumerate(names): L.append(S(f'request {n}', request, dict(names=[n], lvl='DEBUG'), target=T, conc=1, maxpaths=6, tl=30))
    rng = random.Random('c19')
    for i in range(40 if q else 400):
        L.append(S(f'requests {i}', request, dict(names=rng.sample(names, 6), lvl=lv(i)), target=T, conc=1, maxpaths=6, tl=30))
    for k in GTL: L.append(S(f'model {k}', given, dict(kind='gtl', key=k, lvl='DEBUG'), target=T, conc=1, sym=False))
    for k in TSF: L.append(S(f'touchstone {k}', given, dict(kind='tsf', key=k, lvl='DEBUG'), target=T, conc=1, sym=False))
    for k in ('circuit', 'plot', 'resolver', 'print', 'levels', 'write'): L.append(S(f'given {k}', given, dict(kind='misc', key=k, lvl='DEBUG'), target=T, conc=1, sym=False))
    return L
