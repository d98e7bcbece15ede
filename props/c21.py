"""C21 general transmission line models"""
import itertools, os, random
from vc.api import S
from . import _circ as ci
from .c22 import phi
LEVEL = 'other'
BOUNDS = ('models of up to 6 elements (enumerated chains, stubs, junctions and generated ones) in every documented notation, up to 3 levels of variables referring to each other, '
          'given in the file globally or locally or by the caller; models with measured data of 1 to 3 ports up to 2 circuits deep; all values, frequencies and reference impedances symbolic')
EXPLANATION = ('A model file is written and loaded by the real code (numbers are written as tokens that read back as the symbolic values); its S-matrix is proved to be the one of the '
               'network made, independently, of the elements with SI values joined by the names of their ports and terminated. The S-matrix of a single element is the one of the '
               'element object (C06, C07, C08, C10).')
TRUSTED = ['ast.literal_eval on the printed text', 'file system', 'scipy.integrate.odeint for tapered lines']
T = 'rfGTL.__init__,rfGTL._remap_,rfGTL.getS,rfGTL.getSgtl,rfCircuit.addblock,rfCircuit.connect,rfCircuit.terminate,rfCircuit.getS'
UNIT = {'ID': 1e-3, 'OD': 1e-3, 'CTL': 1e-12, 'LTL': 1e-9, 'rho': 1e-6, 'Cs': 1e-12, 'Cp': 1e-12, 'Ls': 1e-9, 'Lp': 1e-9, 'Larc': 1e-9}
R = {'Z0TL': (10, 90), 'vr': (.4, 1), 'LTL': (100, 400), 'CTL': (50, 150), 'ID': (40, 100), 'OD': (150, 250), 'rho': (.01, .05), 'epsr': (1, 3), 'rTL': (.1, 5), 'gTL': (.001, .005), 'L': (.2, 2),
     'Rs': (1, 9), 'Ls': (5, 50), 'Cs': (20, 90), 'Rp': (20, 90), 'Lp': (20, 90), 'Cp': (5, 50), 'Larc': (5, 30)}
LINES = [('Z0TL',), ('LTL', 'CTL'), ('ID', 'OD'), ('Z0TL', 'vr'), ('rTL', 'LTL', 'CTL'), ('ID', 'OD', 'rho'), ('ID', 'OD', 'epsr'), ('LTL', 'CTL', 'gTL')]
LUMPS = [('Ls',), ('Cp',), ('Rs', 'Cs'), ('Rp', 'Lp'), ('Rs', 'Ls', 'Cp'), ('Ls', 'Cs', 'Rp'), ('Lp', 'Cp'), ('Rs',), ('Cs',), ('Rp',), ('Lp',)]

def text(c, x):
    """python text of a model"""
    if isinstance(x, dict): return '{'+', '.join(f'{text(c, k)}: {text(c, v)}' for k, v in x.items())+'}'
    if isinstance(x, tuple): return '('+', '.join(text(c, v) for v in x)+',)'
    if isinstance(x, list): return '['+', '.join(text(c, v) for v in x)+']'
    if isinstance(x, (str, bool, int)) or type(x) is float or x is None: return repr(x)
    if c.symbolic: return format(x, '.0f')
    return repr(complex(x)) if isinstance(x, complex) else repr(float(x))

def write(c, model, name='model.mod'):
    with c.printing():
        t = text(c, model)
    with open(name, 'w') as f: f.write('# a model\n'+t+'\n')
    return name

# an element: (kind, given keys, nodes, options).  Nodes: a name, '[oc]', '[sc]' or ('Z'|'Y'|'RC', i)
class El:
    def __init__(s, name, keys, nodes, length='L', alias=None, var=None, lists=()):
        s.name, s.keys, s.nodes, s.length, s.alias, s.var, s.lists = name, keys, nodes, length, alias or {}, var or {}, lists

def values(c, e):
    v = {k: [c.pos(f'{k}_{e.name}_{i}', *R[k]) for i in range(2)] if k in e.lists else c.pos(f'{k}_{e.name}', *R[k]) for k in e.keys}
    if e.length == 'L' and not set(e.keys) & {'Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp', 'Larc'}: v['L'] = c.pos(f'L_{e.name}', *R['L'])
    one = lambda x: x if isinstance(x, list) else [x]
    if c.symbolic and 'ID' in v and 'OD' in v:
        for a in one(v['ID']):
            for b in one(v['OD']): c.assume(a < b); c.positive(c.np.log(b/a))
    return v

def termv(c, kind, i):
    return c.pos(f'T{i}', 1, 40)*(1 if kind == 'Z' else 1/400. if kind == 'Y' else 1/50.)

def entry(c, e, vals):
    d = {}
    for k, v in vals.items(): d[e.alias.get(k, k)] = e.var.get(k, v)
    d[e.alias.get('ports', 'Portnames')] = [n if isinstance(n, str) else {n[0]: termv(c, *n)} for n in e.nodes]
    return d

def element(c, e, vals, Z):
    """the element itself, from SI values"""
    si = {k: ([x*UNIT[k] for x in v] if isinstance(v, list) else v*UNIT[k]) if k in UNIT else v for k, v in vals.items()}
    if 'Larc' in si: return c.rf.rfArcObj(si['Larc'], Zbase=Z, ports=['1'])
    if set(si) & {'Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'}: return c.rf.rfRLC(Zbase=Z, **si)
    return c.rf.rfTRL(Zbase=Z, **si)

def network(c, els, vals, free, f, Z, Zc):
    """S at the reference Z of the elements joined by node names; Zc: reference of reflection coefficients given as terminations"""
    net = ci.Net(c); net.Zb = Zc
    at = {}
    for e in els:
        ps = [f'{e.name}.{k}' for k in range(len(e.nodes))]
        for p in ps: net.port(p)
        try: M = element(c, e, vals[e.name], Zc).getS(f)
        except (RuntimeError, ZeroDivisionError): c.assume(False)
        net.law(ps, M, Zc)
        for p, n in zip(ps, e.nodes):
            if n == '[oc]': net.term(p, 'Y', 0, Zc)
            elif n == '[sc]': net.term(p, 'Z', 0, Zc)
            elif isinstance(n, tuple): net.term(p, n[0], termv(c, *n), Zc)
            else: at.setdefault(n, []).append(p)
    ext = {}
    for n, ps in at.items():
        if len(ps) > 1: net.junction(ps)
        else: ext[n] = ps[0]
    assert sorted(ext) == sorted(free), (ext, free)
    return c.np.array(ci.refS(c, net, [ext[n] for n in free], Z), dtype=complex)

def nodes_of(els):
    r = {}
    for e in els:
        for n in e.nodes:
            if isinstance(n, str) and n not in ('[oc]', '[sc]'): r[n] = r.get(n, 0)+1
    return r

def model(c, els, perm=0, Zb=True, pos=None, key='M', after=True, generic=False):
    rng = random.Random(perm)
    vals = {e.name: values(c, e) for e in els}
    if any(e.lists for e in els): phi(c)
    free = [n for n, k in nodes_of(els).items() if k == 1]
    if perm: rng.shuffle(free)
    order = list(els)
    if perm: rng.shuffle(order)
    M = {'Portnames': list(free), 'GTL': {e.name: entry(c, e, vals[e.name]) for e in order}}
    if pos: M['relpos'] = {free[0]: 1.5} if pos == 'file' else {}
    if pos == 'entry': M['GTL'][order[0].name]['relpos'] = 2.5
    Z0 = c.pos('Zb', 5, 60) if Zb else 50.
    name = write(c, {key: M, 'other': {'Portnames': ['zz'], 'GTL': {}}})
    try: o = c.rf.rfGTL(name, objkey=key, **({'Zbase': Z0} if Zb else {}))
    except ZeroDivisionError: c.assume(False)
    c.eq('ports', list(o.ports), free); c.true('size', len(o) == len(free)); c.eq('reference', o.Zbase, Z0)
    f = c.pos('f', 30, 60)*1e6; g = c.pos('g', 30, 60)*1e6
    if c.symbolic and (generic or any(e.lists for e in els)): c.assume(f != 45e6); c.assume(g != f); c.assume(g != 45e6)
    Z = c.pos('Zr', 5, 60)
    ref = network(c, els, vals, free, f, Z0, Z0)
    c.eq('S', o.getS(f), ref)
    if after:
        ref2 = network(c, els, vals, free, g, Z0, Z0)
        c.eq('list', o.getS([g, f]), c.np.array([ref2, ref]))
        c.eq('S after', o.getSgtl(g), ref2)
        r = (Z-Z0)/(Z+Z0); N = len(free)
        c.eq('other reference', o.getS(f, Zbase=Z) @ (c.eye(N)-r*ref), ref-r*c.eye(N))
    c.eq('ports after', list(o.ports), free)

def E(*a, **k): return El(*a, **k)
def enumerated():
    L = []
    for i, ks in enumerate(LINES):
        al = [{}, {'ports': 'ports'}, {'L': 'length'}, {'L': 'length', 'Z0TL': 'Z', 'ports': 'ports'}][i % 4]
        L.append((f'line {"+".join(ks)}', [E('A', ks, ['in', 'out'], alias=al)]))
    for i, ks in enumerate(LUMPS):
        L.append((f'lumped {"+".join(ks)}', [E('A', ks, ['in', 'out'], alias={'ports': 'ports'} if i % 2 else {})]))
    L.append(('arc', [E('A', ('Larc',), ['n']), E('B', ('Z0TL',), ['in', 'n'])]))
    L.append(('arc alone', [E('A', ('Larc',), ['n'])]))
    for i, end in enumerate(['[oc]', '[sc]', ('Z', 0), ('Y', 0), ('RC', 0)]):
        for side in (0, 1):
            L.append((f'stub {end} {side}', [E('A', LINES[i], ['n', end][::1 if side else -1]), E('B', ('Z0TL',), ['in', 'n']), E('C', ('LTL', 'CTL'), ['n', 'out'], alias={'ports': 'ports'})]))
        L.append((f'one port {end}', [E('A', ('LTL', 'CTL'), ['p', end])]))
        L.append((f'lumped end {end}', [E('A', ('Rs', 'Ls', 'Cp'), ['p', end] if i % 2 else [end, 'p'])]))
    L.append(('two ends', [E('A', ('Z0TL',), ['n', '[oc]']), E('B', ('Z0TL',), ['[sc]', 'n']), E('C', ('Z0TL',), [('Z', 0), 'n']), E('D', ('LTL', 'CTL'), ['n', 'out'])]))
    L.append(('star', [E('A', ('Z0TL',), ['n', 'x']), E('B', ('Z0TL',), ['y', 'n']), E('C', ('Z0TL',), ['n', 'z'])]))
    L.append(('loop', [E('A', ('Z0TL',), ['i', 'j']), E('B', ('LTL', 'CTL'), ['j', 'i']), E('C', ('Ls',), ['j', 'out']), E('D', ('Z0TL',), ['in', 'i'])]))
    L.append(('two parts', [E('A', ('Z0TL',), ['a', 'b']), E('B', ('Ls',), ['c', 'd'])]))
    L.append(('taper', [E('A', ('LTL', 'CTL'), ['a', 'b'], lists=('LTL',))]))
    L.append(('taper both', [E('A', ('ID', 'OD'), ['a', 'b'], lists=('ID', 'OD')), E('B', ('Z0TL',), ['b', 'c'])]))
    L.append(('taper Z', [E('A', ('Z0TL',), ['a', 'b'], lists=('Z0TL',))]))
    L.append(('no length', [E('A', ('Z0TL',), ['a', 'b'], length=None), E('B', ('LTL', 'CTL'), ['b', 'c'])]))
    return L

def gen(rng):
    n = rng.randint(2, 5)
    els, nodes, k = [], ['n0'], 1
    for i in range(n):
        a = rng.choice(nodes)
        r = rng.random()
        if r < .12: e = [a]; keys = ('Larc',)
        else:
            q = rng.random(); loop = False
            if q < .25: b = rng.choice(['[oc]', '[sc]', ('Z', i), ('Y', i), ('RC', i)])
            elif q < .4 and len(nodes) > 1: b = rng.choice([x for x in nodes if x != a]); loop = True
            else: b = f'n{k}'; k += 1; nodes.append(b)
            e = [a, b]
            if rng.random() < .5: e.reverse()
            keys = rng.choice(LINES[:6]+[k for k in LUMPS if not loop or set(k) & {'Rs', 'Ls', 'Cs'}])       # a loop of mere wires has no solution
        al = {}
        if rng.random() < .5: al['ports'] = 'ports'
        if rng.random() < .5: al['L'] = 'length'
        if rng.random() < .5: al['Z0TL'] = 'Z'
        els.append(E('ABCDEFG'[i], keys, e, alias=al))
    return els
def generated(seed, count):
    out, i = [], 0
    while len(out) < count:
        rng = random.Random(f'{seed}/{i}'); i += 1
        els = gen(rng)
        fr = [n for n, k in nodes_of(els).items() if k == 1]
        if fr and len(fr) < 4: out.append(els)
    return out

# --- variables -----------------------------------------------------------
def variables(c, case):
    """case: (global, local, caller) variables as expressions in x, y, z (numbers of the file) ; entries using them"""
    x, y, z, u = c.pos('x', .5, 2), c.pos('y', .5, 2), c.pos('z', .5, 2), c.pos('u', .5, 2)
    num = {'x': x, 'y': y, 'z': z, 'u': u}
    ev = lambda d: {k: num.get(v, v) for k, v in d.items()}
    glob, loc, call, use = case['glob'], case['loc'], case['call'], case['use']
    els = [E('A', ('LTL', 'CTL'), ['in', 'n']), E('B', ('Ls', 'Cp'), ['n', 'out'])]
    vals = {e.name: values(c, e) for e in els}
    # what every name means: the caller's before the file's, the global ones before the local ones
    env = dict(loc); env.update(glob); env.update(call)
    def value(e, seen=()):
        if not isinstance(e, str): return e
        if e in num: return num[e]
        return eval(e, {'np': c.np}, Lazy(env, value, num))
    M = {'Portnames': ['in', 'out'], 'variables': ev(loc), 'GTL': {e.name: entry(c, e, vals[e.name]) for e in els}}
    if not loc: M.pop('variables')
    for (b, k), e in use.items(): M['GTL'][b][k] = e; vals[b][k] = value(e)
    F = {'variables': ev(glob), 'M': M} if glob else {'M': M}
    name = write(c, F)
    kw = ev(call)
    Z0 = c.pos('Zb', 5, 60)
    o = c.rf.rfGTL(name, objkey='M', variables=kw, Zbase=Z0)
    c.eq('variables of the caller', sorted(kw), sorted(call))
    f = c.pos('f', 30, 60)*1e6
    c.eq('ports', list(o.ports), ['in', 'out'])
    c.eq('S', o.getS(f), network(c, els, vals, ['in', 'out'], f, Z0, Z0))
    # and a second model from the same file with other values of the caller
    o2 = c.rf.rfGTL(name, objkey='M', Zbase=Z0, variables=dict(kw, q=3.)) 
    c.eq('again', o2.getS(f), o.getS(f))
class Lazy(dict):
    """names resolved on use"""
    def __init__(s, env, value, num): super().__init__(); s.env, s.value, s.num = env, value, num
    def __missing__(s, k):
        if k in s.env:
            v = s.env[k]
            return s.num[v] if isinstance(v, str) and v in s.num and v != k else s.value(v)
        raise KeyError(k)

CASES = {
 'global': dict(glob={'a': 'x'}, loc={}, call={}, use={('A', 'L'): 'a'}),
 'local': dict(glob={}, loc={'a': 'x'}, call={}, use={('A', 'L'): 'a'}),
 'caller': dict(glob={}, loc={}, call={'a': 'x'}, use={('A', 'L'): 'a'}),
 'caller over global': dict(glob={'a': 'x'}, loc={}, call={'a': 'y'}, use={('A', 'L'): 'a'}),
 'caller over local': dict(glob={}, loc={'a': 'x'}, call={'a': 'y'}, use={('A', 'L'): 'a', ('B', 'Ls'): '10*a'}),
 'caller over both': dict(glob={'a': 'z'}, loc={'a': 'x'}, call={'a': 'y'}, use={('A', 'L'): 'a', ('B', 'Ls'): '10*a'}),
 'expression': dict(glob={'a': 'x', 'b': 'y'}, loc={}, call={}, use={('A', 'L'): 'a+b', ('B', 'Cp'): '20*a/b', ('A', 'CTL'): '100*a'}),
 'functions': dict(glob={'a': 'x'}, loc={}, call={}, use={('A', 'L'): 'np.sqrt(a)'}),
 'unit': dict(glob={'a': 'x'}, loc={}, call={}, use={('B', 'Ls'): 'a*15', ('B', 'Cp'): 'a*20', ('A', 'LTL'): '200*a', ('A', 'CTL'): '90*a'}),
 'chain': dict(glob={'a': 'b+1', 'b': 'x'}, loc={}, call={}, use={('A', 'L'): 'a'}),
 'chain 2': dict(glob={'a': '2*b', 'b': 'd+1', 'd': 'x'}, loc={}, call={}, use={('A', 'L'): 'a'}),
 'chain 3': dict(glob={'a': '2*b', 'b': '3*d', 'd': '2*e', 'e': 'x'}, loc={}, call={}, use={('A', 'L'): 'a/10'}),
 'chain text': dict(glob={'a': '2*b', 'b': '3'}, loc={}, call={}, use={('A', 'L'): 'a/10'}),
 'chain sum': dict(glob={'a': 'b+d', 'b': '3', 'd': '2'}, loc={}, call={}, use={('A', 'L'): 'a/10'}),
 'chain back': dict(glob={'e': 'x', 'd': '2*e', 'b': '3*d', 'a': '2*b'}, loc={}, call={}, use={('A', 'L'): 'a/10'}),
 'alias': dict(glob={'a': 'b', 'b': 'd', 'd': 'x'}, loc={}, call={}, use={('A', 'L'): 'a'}),
 'local of global': dict(glob={'b': 'x'}, loc={'a': '2*b'}, call={}, use={('A', 'L'): 'a'}),
 'global of local': dict(glob={'a': '2*b'}, loc={'b': 'x'}, call={}, use={('A', 'L'): 'a'}),
 'file of caller': dict(glob={'a': '2*b'}, loc={'d': 'a+b'}, call={'b': 'y'}, use={('A', 'L'): 'a', ('B', 'Ls'): '9*d'}),
 'file of overridden': dict(glob={'a': '2*b', 'b': 'x'}, loc={'d': 'a+b'}, call={'b': 'y'}, use={('A', 'L'): 'a', ('B', 'Ls'): '9*d'}),
 'caller of file': dict(glob={'b': 'x'}, loc={'d': 'z'}, call={'a': 'b+d'}, use={('A', 'L'): 'a'}),
 'caller replaces expression': dict(glob={'a': '2*b', 'b': 'x'}, loc={}, call={'a': 'y'}, use={('A', 'L'): 'a', ('B', 'Cp'): '20*b'}),
 'caller expression': dict(glob={'b': 'x', 'd': 'y'}, loc={'b': 'z'}, call={'b': '2*d'}, use={('A', 'L'): 'b'}),
 'names': dict(glob={'L': 'x', 'Ls': 'y', 'RHO': 'z'}, loc={}, call={'RHO': 'u'}, use={('A', 'L'): 'L', ('B', 'Ls'): 'Ls*10', ('B', 'Cp'): 'RHO*10'}),
 'unused': dict(glob={'a': 'x', 'w': 'nothing+1'}, loc={}, call={}, use={('A', 'L'): 'a'}),
}

def rejected(c, what):
    """inconsistent models"""
    els = [E('A', ('Z0TL',), ['in', 'n']), E('B', ('LTL', 'CTL'), ['n', 'out'])]
    def mk(change, **kw):
        vals = {e.name: values(c, e) for e in els}
        M = {'Portnames': ['in', 'out'], 'GTL': {e.name: entry(c, e, vals[e.name]) for e in els}}
        change(M)
        name = write(c, {'M': M})
        return lambda: c.rf.rfGTL(name, **dict(dict(objkey='M', Zbase=30.), **kw))
    e, g = c.call(mk(lambda M: None)); c.true('as it is', e is None)
    def r(label, change, *types, **kw): c.raises(label, mk(change, **kw), *types)
    if what == 'names':
        r('port missing', lambda M: M.update(Portnames=['in']), ValueError)
        r('port too many', lambda M: M.update(Portnames=['in', 'out', 'x']), ValueError)
        r('joined port declared', lambda M: M.update(Portnames=['in', 'out', 'n']), ValueError)
        r('other name', lambda M: M.update(Portnames=['in', 'x']), ValueError)
        r('joined instead of free', lambda M: M.update(Portnames=['in', 'n']), ValueError)
        r('no names', lambda M: M.pop('Portnames'), ValueError)
        r('port open', lambda M: M['GTL']['B'].update(Portnames=['n', '[oc]']), ValueError)
        r('port joined elsewhere', lambda M: M['GTL']['B'].update(Portnames=['n', 'in']), ValueError)
        r('not joined', lambda M: M['GTL']['B'].update(Portnames=['m', 'out']), ValueError)
    elif what == 'keys':
        r('both port keys', lambda M: M['GTL']['A'].update(ports=['in', 'n']), ValueError)
        r('no port key', lambda M: M['GTL']['A'].pop('Portnames'), ValueError)
        r('both lengths', lambda M: M['GTL']['A'].update(length=2.), ValueError)
        r('both impedances', lambda M: M['GTL']['A'].update(Z=2.), ValueError)
        r('both positions', lambda M: M['GTL']['A'].update(relpos=2., xpos=1.), ValueError)
        r('position of no port', lambda M: M.update(relpos={'zz': 1.}), ValueError)
        r('position of inner port', lambda M: M.update(relpos={'n': 1.}), ValueError)
        r('unknown name', lambda M: M['GTL']['A'].update(L='nothing+1'), NameError)
        r('no such model', lambda M: None, KeyError, objkey='zz')
    else:
        r('one name for two ports', lambda M: M['GTL']['A'].update(Portnames=['in']))
        r('three names', lambda M: M['GTL']['A'].update(Portnames=['in', 'n', 'm']))
        r('two names for one port', lambda M: M['GTL'].update(C={'Larc': 10., 'Portnames': ['n', 'q']}))
        r('termination', lambda M: M['GTL'].update(C={'Ls': 10., 'Portnames': ['n', {'Q': 1.}]}))
        r('two terminations', lambda M: M['GTL'].update(C={'Ls': 10., 'Portnames': ['n', {'Z': 1., 'Y': 2.}]}))

def measured(c, n, Zb, names, depth):
    """a model with measured data is a table of these data at its ports, unless the flag sNp is off; also inside circuits"""
    rf = c.rf; np = c.np
    f2 = 2*ci.F
    X, Y = c.cmat('X', n), c.cmat('Y', n); R0 = c.pos('R', 20, 70)
    Z0 = c.pos('Zb', 5, 60) if Zb else 50.
    num = lambda x: f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        rows = []
        for f, M in ((ci.F, X), (f2, Y)):
            v = [v for z in (M.T if n == 2 else M).flat for v in (np.real(z), np.imag(z))]
            rows.append(' '.join([num(f)]+[num(t) for t in v]) if n < 3 else '\n'.join((num(f)+' ' if not i else ' ')+' '.join(num(t) for t in v[2*n*i:2*n*i+2*n]) for i in range(n)))
        t = '! m\n# HZ S RI R '+num(R0)+'\n'+'\n'.join(rows)+'\n'
    with open(f'd21.s{n}p', 'w') as g: g.write(t)
    ps = ['out', 'in', 'b'][:n] if names else ['in', 'out', 'b'][:n]
    if n == 1: ps = ['in']
    Zl = c.pos('Zl', 10, 90)
    G = {'A': {'Portnames': ['in', 'm'], 'Z0TL': Zl, 'L': 1.3}, 'B': {'Portnames': ['m', 'out'] if n > 1 else ['m', '[oc]'], 'Z0TL': 30., 'L': .4}}
    if n == 3: G['C'] = {'Portnames': ['m', 'b'], 'Ls': 20., 'Rs': 1.}
    M = lambda **k: dict({'Portnames': list(ps), 'GTL': {k: dict(v) for k, v in G.items()}}, **k)
    name = write(c, {'M': M(sNp=f'd21.s{n}p'), 'N': M()}, 'c21.mod')
    kw = dict(Zbase=Z0) if Zb else {}
    o, y = rf.rfGTL(name, objkey='M', **kw), rf.rfGTL(name, objkey='N', **kw)
    tab = rf.rfObject(ports=list(ps), Zbase=R0)
    for f, m in ((ci.F, X), (f2, Y)): tab.setS(f, m)
    for k in range(depth):
        qs = []
        for x in (o, y, tab):
            q = rf.rfCircuit(Id='q', Zbase=Z0); q.addblock('B', x)
            if k == 0 and n > 1: q.addblock('R', rf.rfRLC(Rs=12.)); q.connect('R.p', 'B.'*(k+1)+'out')
            qs.append(q)
        o, y, tab = qs
    Zq = c.pos('Zq', 5, 60)
    for k, f in enumerate((ci.F, f2, [f2, ci.F, f2])):
        if c.symbolic and k == 2 and depth: f = [f2, ci.F]
        c.eq(f'ports', list(o.ports) or list(ps), list(tab.ports))
        c.eq(f'measured {k}', o.getS(f, Zbase=Z0), tab.getS(f, Zbase=Z0))
        c.eq(f'measured {k}, default', o.getS(f), tab.getS(f, Zbase=Z0))
        c.eq(f'measured {k}, reference', o.getS(f, Zbase=Zq), tab.getS(f, Zbase=Zq))
        c.eq(f'model {k}', o.getS(f, flags={'sNp': False}), y.getS(f))
        c.eq(f'model {k}, reference', o.getS(f, Zbase=Zq, flags={'sNp': False}), y.getS(f, Zbase=Zq))
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(o.ports)}
    a, b = o.Solution(f2, dict(E), Zq), tab.Solution(f2, dict(E), Zq) if depth else None
    if b is not None:
        for p in b: c.true(f'node {p}', p in a); c.eq(f'node', a[p], b[p])

def scenarios(tier):
    L = []; big = tier != 'quick'
    for i, (nm, els) in enumerate(enumerated()):
        L.append(S(f'{nm}', model, dict(els=els, perm=0, Zb=bool(i % 4), pos=(None, 'file', 'entry')[i % 3], after=bool(i % 2)), target=T, conc=2))
        if len(els) > 1: L.append(S(f'{nm}, other order', model, dict(els=els, perm=i+1, Zb=bool(i % 3), pos=('entry', None, 'file')[i % 3], key='VTL1', after=not i % 2), target=T, conc=2))
    for i, els in enumerate(generated('c21', 20 if not big else 200)):
        L.append(S(f'generated {i}', model, dict(els=els, perm=i, pos=(None, 'file', 'entry')[i % 3], after=not i % 3, generic=True), target=T, conc=2))
    for k, v in CASES.items(): L.append(S(f'variables {k}', variables, dict(case=v), target=T, conc=2))
    for n in (1, 2, 3):
        for d in (0, 1, 2): L.append(S(f'measured {n} {d}', measured, dict(n=n, Zb=(n+d) % 2, names=d % 2, depth=d), target=T+',rfGTL.getSgtl', conc=2))
    for w in ('names', 'keys', 'elements'): L.append(S(f'rejected {w}', rejected, dict(what=w), target=T, conc=2))
    return L
