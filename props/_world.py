"""A circuit (or single object) together with the description a user has of it.

Actions are data; applying one calls the real method on the live object and, apart
from that, edits the description.  `make` builds a new object from a description."""
import copy as _copy, random
from ._circ import names
F1, F2 = 45e6, 50e6
SET = {'rlc': ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp'), 'trl': ('L',), 'arc': ('Larc',)}
FILE = {'Ls': 1e-9, 'Lp': 1e-9, 'Cs': 1e-12, 'Cp': 1e-12, 'Larc': 1e-9}
UNIT = {'Rs': 1, 'Rp': 1, 'Ls': 1e-7, 'Lp': 1e-7, 'Cs': 1e-10, 'Cp': 1e-10, 'Larc': 1e-7}

class Vals:
    """the numbers behind the keys of a description"""
    def __init__(s, c, symf=True): s.c, s.d, s.symf = c, {}, symf
    def f(s, f):
        """the frequency behind F1, F2"""
        if not s.symf: return f
        if ('f', f) not in s.d:
            g = s.c.pos(f'f{int(f/1e6)}', 25, 70)*1e6
            if f == F2:
                s.f(F1)
                if s.c.symbolic: s.c.assume(s.d['f', F1] < g)
            s.d['f', f] = s.c.near(f'f{int(f/1e6)}', g, [s.d['f', F1]] if f == F2 else [], round(g/1e3)*1e3 if not s.c.symbolic else g)
            if not s.c.symbolic and f == F2: s.c.assume(s.d['f', F1] != s.d['f', F2])
        return s.d['f', f]
    def get(s, kind, k):
        if (kind, k) not in s.d:
            v = s._new(kind, k)
            if kind in UNIT or kind in ('L', 'Zb', 'Z0') and (kind != 'Zb' or k): v = s.c.near(f'{kind}{k}', v, [w for (q, j), w in s.d.items() if q == kind])
            if kind in FILE and not s.c.symbolic:
                while v/FILE[kind]*FILE[kind] != v: v = v/FILE[kind]*FILE[kind]      # a number that survives the units of a file
            # generic: different keys are different numbers (equal ones are one key)
            if s.c.symbolic and kind in UNIT or kind in ('L', 'Zb'):
                for (q, j), w in s.d.items():
                    if q == kind: s.c.assume(v != w)
                if kind == 'Zb' and k: s.c.assume(v != 50.)
            s.d[(kind, k)] = v
        return s.d[(kind, k)]
    def _new(s, kind, k):
        c = s.c
        if kind in UNIT: return c.pos(f'{kind}{k}', .3, 3)*UNIT[kind]
        if kind == 'L':
            v = c.pos(f'L{k}', .2, 1.9)
            c.assume(v < 2.)
            return v
        if kind == 'Z0': return c.pos(f'Z0_{k}', 10, 90)
        if kind == 'Zb': return c.pos(f'Zb{k}', 5, 60) if k else 50.
        if kind == 'x' and k == 'model': return -10       # the position blocks of a model have by default
        if kind == 'x': return c.real(f'x{k}', lo=-3, hi=3)
        if kind == 'T' and isinstance(k, tuple): return c.pos(f'T{k[0]}', .2, 2)      # a number written into a file
        if kind == 'T': return c.cplx(f'T{k}', 2.)
        if kind == 'a': return c.cplx(f'a{k}')
        if kind == 'S': return c.cmat(f'S{k[0]}f{int(k[1]/1e6)}', k[2])
        raise KeyError(kind)

def num(v, kind, k): return v.get(kind, k)

def pnames(n): return (['a', 'b', 'c', 'd', 'e']+[f'p{k}' for k in range(6, n+1)])[:n]
def ports(d):
    t = d['t']
    if t in ('tab', 'obj', 'arr'): return pnames(d['n'])
    if t == 'rlc': return ['s', 'p']
    if t == 'trl': return ['1', '2']
    if t == 'arc': return ['x']
    return free(d)
def free(d):
    """external ports in their order"""
    fr = []
    for e in d['seq']:
        if e[0] == 'b': fr += [f'{e[1]}.{p}' for p in d['blocks'][e[1]]['names']]
        elif e[0] == 'c':
            new = [p for p in e[1:] if p not in fr]
            fr = [p for p in fr if p not in e[1:]]+new
        elif e[0] == 't': fr = [p for p in fr if p != e[1]]
    return list(d['pn']) if d['pn'] else fr

class Owner:
    """hands out the data given to the code; C18 looks whether they are still the same"""
    def arg(s, x): return x
    def res(s, x): return x
PLAIN = Owner()

def load(c, v, d, Id, own):
    """the model file of a description is loaded"""
    from .c21 import write
    G = {}
    term = {e[1]: e for e in d['seq'] if e[0] == 't'}
    for n, b in d['blocks'].items():
        x = b['d']
        g = {'ports': [{e[2]: tval(c, v, e)[e[2]]} if (e := term.get(f'{n}.{q}')) and q == '[**]' else q for q in b['names']]}
        for a, k in x['el'].items(): g[a] = num(v, a, k)/FILE.get(a, 1)
        if x['t'] == 'trl': g.update(Z0TL=num(v, 'Z0', x['Z0']), dx=-2.)
        G[n] = g
    name = write(c, {'M': {'Portnames': list(d['pn']), 'GTL': G}}, f'{Id}.mod')
    if c.symbolic:
        for f in (F1, F2): c.assume(v.f(f) != 45e6)       # the model evaluates itself there once
    return c.rf.rfGTL(name, objkey='M', Id=Id, Zbase=num(v, 'Zb', d['Zb']), variables=own.arg({'unused': 1}))

def plain(d):
    """the same circuit, built by hand"""
    d.pop('gtl', None)
    for b in d.get('blocks', {}).values(): plain(b['d'])
    return d

def make(c, v, d, Id='O', own=PLAIN):
    """a new object from its description"""
    rf, t = c.rf, d['t']
    if d.get('gtl'): return load(c, v, d, Id, own)
    A = own.arg
    kw = {'Id': Id}
    if t != 'arr' and d.get('Zb', 0) != 0 or d.get('Zb0'): kw['Zbase'] = num(v, 'Zb', d['Zb'])
    if 'xp' in d: kw['xpos'] = A([num(v, 'x', k) for k in d['xp']])
    if t == 'tab':
        return rf.rfBase(Ss=A([num(v, 'S', (d['S'], f, d['n'])) for f in (F1, F2)]), fs=A([v.f(F1), v.f(F2)]), ports=A(ports(d)), **kw)
    if t == 'obj':
        o = rf.rfObject(ports=A(ports(d)), **kw)
        for f, k in d['tab']: o.setS(v.f(f), A(num(v, 'S', (k, f, d['n']))))
        return o
    if t == 'arr': return A(num(v, 'S', (d['S'], 0, d['n'])))
    if t == 'rlc': return rf.rfRLC(**{e: num(v, e, k) for e, k in d['el'].items()}, **kw)
    if t == 'trl':
        L = num(v, 'L', d['el']['L'])
        if 'xs' in d: kw['xpos'] = num(v, 'x', d['xs'])
        return rf.rfTRL(L=L, Z0TL=num(v, 'Z0', d['Z0']), dx=L/(d['pts']-.5) if 'pts' in d else -2., **kw)
    if t == 'arc': return rf.rfArcObj(num(v, 'Larc', d['el']['Larc']), ports=A(['x']), **kw)
    if d['pn']: kw['Portnames'] = A(list(d['pn']))
    o = rf.rfCircuit(**kw)
    for e in d['seq']: step(c, v, d, o, e, Id, own)
    return o

def step(c, v, d, o, e, Id, own):
    """one building operation"""
    A = own.arg
    if e[0] == 'b':
        b = d['blocks'][e[1]]
        x = make(c, v, b['d'], Id+'_'+e[1], own)
        op = ports(b['d'])
        kw = {}
        if b['d']['t'] == 'arr': kw['ports'] = A(list(b['names']))
        elif op != b['names']: kw['ports'] = A({p: q for p, q in zip(op, b['names']) if p != q})
        if b['par']: kw['params'] = A({a: num(v, a, k) for a, k in b['par'].items()})
        if b['rel'] is not None: kw['relpos'] = num(v, 'x', b['rel'])
        o.addblock(e[1], x, **kw)
    elif e[0] == 'c': o.connect(*e[1:])
    elif e[0] == 't': o.terminate(e[1], **tval(c, v, e))

def tval(c, v, e):
    _, p, kind, k = e
    if kind == 'D': return {}
    if k is None: return {kind: 0}
    x = num(v, 'T', k)
    return {kind: x*20 if kind == 'Z' else x/20 if kind == 'Y' else x}

# --- paths -------------------------------------------------------------------
def leaf(d, path):
    for n in path.split('.') if path else []: d = d['blocks'][n]['d']
    return d
def settable(d, pre='', par=()):
    """(path of the object, attribute)"""
    out = []
    if d['t'] == 'circ':
        for n, b in d['blocks'].items(): out += settable(b['d'], f'{pre}.{n}' if pre else n, tuple(b['par']))
    else: out += [(pre, a) for a in SET.get(d['t'], ()) if a not in par]
    return out
def paths(d, pre=''):
    out = []
    for n, b in d['blocks'].items():
        p = f'{pre}.{n}' if pre else n
        out.append(p)
        if b['d']['t'] == 'circ': out += paths(b['d'], p)
    return out

# --- actions -------------------------------------------------------------------
def excitation(c, v, d, dflt=None):
    return {p: num(v, 'a', k) for k, p in enumerate(free(d) if d['t'] == 'circ' else ports(d))}

def setargs(c, v, form, items, own=PLAIN):
    """(args, kwargs) of one set call for [(path, attr, key)]"""
    A = own.arg
    val = lambda a, k: num(v, a, k)
    if form in ('pos', 'tup', 'dict'):
        l = [(f'{p}.{a}', val(a, k)) for p, a, k in items]
        if form == 'pos': return [x for t in l for x in t], {}
        if form == 'tup': return l, {}
        return [A(dict(l))], {}
    by = {}
    for p, a, k in items: by.setdefault(p, {})[a] = val(a, k)
    if form == 'pdict': return [x for p, m in by.items() for x in (p, A(m))], {}
    if form == 'tdict': return [(p, A(m)) for p, m in by.items()], {}
    kw = {}
    for p, m in by.items():
        e = kw
        for n in p.split('.'): e = e.setdefault(n, {})
        e.update(m)
    return [], ({n: A(m) for n, m in kw.items()} if form == 'kw' else kw)

FORMS = ('pos', 'tup', 'dict', 'pdict', 'tdict', 'kw')

def act(c, v, d, o, a, own=PLAIN):
    """one action on the live object o and on its description; returns the observation"""
    A, R = own.arg, own.res
    k = a[0]
    circ = d['t'] == 'circ'
    if k == 'getS':
        _, f, Zk, fl = a
        kw = {}
        if Zk is not None: kw['Zbase'] = num(v, 'Zb', Zk)
        if fl is not None and circ: kw['flags'] = A(dict(fl))
        return R(o.getS(A([v.f(x) for x in f]) if isinstance(f, tuple) else v.f(f), **kw))
    if k == 'sol':
        _, f, Zk, nodes = a
        return R(o.Solution(v.f(f), A(excitation(c, v, d)), **({'Zbase': num(v, 'Zb', Zk)} if Zk is not None else {}), **({'nodes': A(list(nodes))} if nodes is not None else {})))
    if k == 'maxV':
        _, f, Zk = a
        with c.onepath():
            r = o.maxV(v.f(f), A(excitation(c, v, d)), **({'Zbase': num(v, 'Zb', Zk)} if Zk is not None else {}))
        return R([r[0], r[2]])
    if k == 'int':
        _, f, nodes = a
        return R(o.Get_internalSmatrix(v.f(f), A(list(nodes))))
    if k == 'params':
        _, f, items = a
        for p, at, q in items: leaf(d, p)['el'][at] = q
        if circ: return R(o.getS(v.f(f), params=A(setargs(c, v, 'nest', items)[1])))
        return R(o.getS(v.f(f), params=A({at: num(v, at, q) for p, at, q in items})))
    if k == 'set':
        _, form, items = a
        ch = False
        for p, at, q in items:
            e = leaf(d, p)['el']
            ch |= e.get(at) != q; e[at] = q
        if circ:
            ar, kw = setargs(c, v, form, items, own)
            return ['modified', bool(o.set(*ar, **kw)) == ch]
        return ['modified', bool(o.set(**{at: num(v, at, q) for p, at, q in items})) == ch]
    if k == 'repl':
        _, p, new, Id = a
        q, n = p.rpartition('.')[::2]
        b = leaf(d, q)['blocks'][n]
        b['d'] = _copy.deepcopy(new)
        o.addblock(p, make(c, v, b['d'], Id, own))
        return None
    if k == 'op':
        e = a[1]
        if e[0] == 'b': d['blocks'][e[1]] = _copy.deepcopy(a[2])
        if e[0] == 't' and any(x[:2] == e[:2] for x in d['seq']): d['seq'] = [e if x[:2] == e[:2] else x for x in d['seq']]
        else:
            d['seq'].append(e)
            if e[0] == 't' and d['pn']: d['pn'] = [p for p in d['pn'] if p != e[1]]
        step(c, v, d, o, e, a[3] if len(a) > 3 else 'N', own)
        return None
    if k == 'setS':
        _, f, q = a
        retab(d, f, q)
        o.setS(v.f(f), A(num(v, 'S', (q, f, d['n']))))
        return None
    if k == 'item':
        _, i, q = a
        f = d['tab'][i][0]; d['tab'][i] = (f, q)
        i = [x for x, g in enumerate(o.fs) if g is v.f(f) or not c.symbolic and g == v.f(f)][0]     # the code may have sorted its table
        o[i] = v.f(f), A(num(v, 'S', (q, f, d['n'])))
        return None
    if k == 'noise':      # requests that may or may not be possible, at many frequencies (concrete runs only)
        rng = random.Random(a[1])
        for _ in range(a[2]):
            f = rng.choice([v.f(F1), v.f(F2), rng.uniform(20e6, 80e6), rng.uniform(20e6, 80e6)]); Zn = rng.choice([None, rng.uniform(5, 90)])
            try:
                if circ and rng.random() < .4: o.Solution(f, {p: rng.uniform(-1, 1) for p in free(d)}, Zn)
                elif not circ and d['t'] == 'trl' and rng.random() < .4: o.maxV(f, {'1': rng.uniform(-1, 1), '2': 1j}, Zn)
                else: o.getS(f, **({'Zbase': Zn} if Zn else {}))
            except (ValueError, KeyError, RuntimeError, c.np.linalg.LinAlgError): pass
        return None
    if k == 'meta': return R([list(o.ports), len(o), [o.getpos(p) if circ else o.xpos[i] for i, p in enumerate(o.ports)], list(o.xpos)])
    raise KeyError(k)

def fresh(c, v, d, a):
    """the answer of a newly built object; a network without unique solution is outside the domain"""
    d2 = plain(_copy.deepcopy(d))
    if a[0] == 'params':
        sim(d2, a); a = ('getS', a[1], None, None)
    try:
        new = make(c, v, d2)
        if a[0] == 'meta': new.getS(v.f(F1))      # announced ports are in place once evaluated
        return act(c, v, d2, new, a)
    except c.np.linalg.LinAlgError:
        c.assume(False)

def both(c, v, d, o, a, own=PLAIN):
    """(answer of the object with a history, answer of a new object in the same state)"""
    x = fresh(c, v, d, a)
    if a[0] == 'meta': o.getS(v.f(F1))
    return act(c, v, d, o, a, own), x

def observe(o, d):
    """requests every object in state d is asked"""
    out = [('getS', F1, None, None), ('getS', (F2, F1), 1, None), ('meta',)]
    if d['t'] == 'circ': out += [('sol', F1, 2, None)]
    return out

# --- generation ---------------------------------------------------------------------
class Keys:
    def __init__(s): s.n = 0
    def new(s): s.n += 1; return s.n

def gen_leaf(rng, K, kinds, zb=True):
    t = rng.choice(kinds)
    Zb = rng.choice([0, 0, 1, 2]) if zb else 0
    if t in ('tab', 'arr'): d = {'t': t, 'n': rng.randint(1, 3), 'S': K.new(), 'Zb': Zb}
    elif t == 'obj': d = {'t': t, 'n': rng.randint(1, 3), 'tab': [(f, K.new()) for f in rng.sample([F1, F2], 2)], 'Zb': Zb, 'Zb0': 1}
    elif t == 'rlc':
        d = {'t': t, 'Zb': Zb, 'el': {e: rng.randint(0, 1) for e in SET['rlc'] if rng.random() < .5}}
        if not any(e in d['el'] for e in ('Rs', 'Ls', 'Cs')): d['el']['Ls'] = 0
    elif t == 'trl': d = {'t': t, 'Zb': Zb, 'el': {'L': rng.randint(0, 2)}, 'Z0': rng.randint(0, 1)}
    elif t == 'arc': d = {'t': t, 'Zb': Zb, 'el': {'Larc': rng.randint(0, 1)}}
    if t in ('tab', 'obj', 'rlc') and rng.random() < .4: d['xp'] = [rng.randint(0, 4) for _ in ports(d)]
    return d

KINDS = ('tab', 'obj', 'rlc', 'rlc', 'trl', 'trl', 'arc', 'arr')
def gen_model(rng, K, nb=None):
    """a model of lines and lumped elements whose ports of the same name are joined"""
    while True:
        Zb = rng.choice([0, 1, 2])
        d = {'t': 'circ', 'gtl': True, 'Zb': Zb, 'Zb0': 1, 'blocks': {}, 'seq': [], 'pn': None}
        nodes, at, k = ['n0'], {}, 1
        for i in range(nb or rng.randint(1, 3)):
            x = gen_leaf(rng, K, ('trl', 'trl', 'rlc'), zb=False); x['Zb'] = Zb; x['Zb0'] = 1; x.pop('xp', None)
            a, r = rng.choice(nodes), rng.random()
            if r < .2 and i: q = '[oc]'
            elif r < .4 and i: q = '[sc]'
            elif r < .6 and i: q = '[**]'
            else: q = f'n{k}'; k += 1; nodes.append(q)
            ns = [a, q]
            if rng.random() < .5: ns.reverse()
            n = 'BXQ'[i]
            d['blocks'][n] = {'d': x, 'names': ns, 'rel': 'model', 'par': {}}
            d['seq'].append(('b', n))
            if q == '[oc]': d['seq'].append(('t', f'{n}.{q}', 'Y', None))
            elif q == '[sc]': d['seq'].append(('t', f'{n}.{q}', 'Z', None))
            elif q == '[**]': d['seq'].append(('t', f'{n}.{q}', rng.choice(['Z', 'Y', 'RC']), (K.new(),)))
            for p in ns:
                if p[0] != '[': at.setdefault(p, []).append(n)
        if rng.random() < .5 and len([p for p in at if len(at[p]) == 1]) < 1: continue
        for p, ns in at.items():
            if len(ns) > 1: d['seq'].append(('c',)+tuple(f'{n}.{p}' for n in ns))
        pn = [p for p, ns in at.items() if len(ns) == 1]
        if not pn: continue
        rng.shuffle(pn)
        for p in pn: d['seq'].append(('c', f'{at[p][0]}.{p}', p))
        d['pn'] = pn
        return d

def gen_big(rng, K, depth=1, kinds=KINDS, sub=False):
    """larger than what is proved: many blocks, ports and operations"""
    d = {'t': 'circ', 'Zb': rng.choice([0, 1, 2]), 'blocks': {}, 'seq': [], 'pn': None}
    for i in range(rng.randint(2, 3) if sub else rng.randint(4, 10)):
        if depth > 0 and rng.random() < .3: x = gen_big(rng, K, depth-1, kinds, True)
        else:
            x = gen_leaf(rng, K, kinds)
            if 'n' in x and rng.random() < .4: x['n'] = rng.choice([4, 5, 7, 11]); x.pop('xp', None)
            if 'xp' not in x and x['t'] in ('tab', 'obj', 'rlc') and rng.random() < .4: x['xp'] = [rng.randint(0, 4) for _ in ports(x)]
        n = f'B{i+7}'
        d['blocks'][n] = gen_block(rng, K, x, kinds)
        d['seq'].append(('b', n))
    keep = rng.randint(2, 9)
    for _ in range(60):
        fr = free(d)
        if len(fr) <= keep: break
        if rng.random() < .75:
            sel = rng.sample(fr, min(len(fr), rng.choice([2, 2, 2, 3, 4, 6])))
            if loops(d, sel) or len({p.split('.')[0] for p in sel if '.' in p}) < len([p for p in sel if '.' in p]): continue
            k = sum(e[0] == 'c' for e in d['seq'])
            l = sel+([f'n{k}'] if rng.random() < .5 or len(fr) == len(sel) else [])
            rng.shuffle(l)
            d['seq'].append(('c',)+tuple(l))
        elif len(fr) > 1: d['seq'].append(('t', rng.choice(fr), rng.choice(['Z', 'Y', 'RC', 'D']), K.new()))
    if rng.random() < .3:
        pn = free(d); rng.shuffle(pn); d['pn'] = pn
    return d

def bigs(seed, count, n, noise=True, **kw):
    """large circuits or long histories, with requests at many frequencies between"""
    out, i = [], 0
    while len(out) < count:
        rng = random.Random(f'{seed}/big/{i}'); i += 1
        K = Keys()
        kinds = KINDS if i % 2 else ('rlc', 'trl', 'trl', 'arc')
        if i % 3 == 0: d = gen(rng, K, depth=rng.choice((0, 1, 2)), kinds=kinds); m = n
        elif i % 3 == 1: d = gen_big(rng, K, rng.choice((0, 1, 2)), kinds); m = n//3
        else: d = gen_leaf(rng, K, (rng.choice(('obj', 'trl', 'trl', 'rlc', 'arc')),)); m = n
        if d['t'] == 'circ' and not free(d): continue
        h = history(rng, d, m, K, **kw)
        if noise:
            for _ in range(m//6): h.insert(rng.randrange(len(h)+1), ('noise', rng.random(), rng.choice([3, 12, 40])))
        out.append((d, h))
    return out

def gen_block(rng, K, d, kinds, par=True):
    op = ports(d)
    names = list(op)
    if rng.random() < .3 or d['t'] == 'arr':
        names = [f'm{i}' if rng.random() < .7 else p for i, p in enumerate(op)]
    b = {'d': d, 'names': names, 'rel': rng.randint(0, 4) if rng.random() < .6 else None, 'par': {}}
    if par and d['t'] in ('rlc',) and rng.random() < .15: b['par'] = {rng.choice(SET['rlc']): rng.randint(0, 2)}
    return b

def gen(rng, K=None, depth=1, kinds=KINDS, nb=None, keep=2, pre='', models=False):
    K = K or Keys()
    d = {'t': 'circ', 'Zb': rng.choice([0, 0, 1, 2]), 'blocks': {}, 'seq': [], 'pn': None}
    nb = nb or rng.randint(1, 3)
    nms = names(rng)
    for i in range(nb):
        sub = gen_model(rng, K, rng.randint(1, 2)) if models and rng.random() < .6 else gen(rng, K, depth-1, kinds, rng.randint(1, 2)) if depth > 0 and rng.random() < .4 else gen_leaf(rng, K, kinds)
        n = nms[i]
        d['blocks'][n] = gen_block(rng, K, sub, kinds)
        d['seq'].append(('b', n))
    grow(rng, K, d, keep)
    if rng.random() < .3:
        pn = free(d); rng.shuffle(pn); d['pn'] = pn
    return d

def grow(rng, K, d, keep=2, most=12, maxops=4):
    k = sum(e[0] == 'c' for e in d['seq'])
    n = rng.randint(0, maxops); ops = 0
    for _ in range(most):
        fr = free(d)
        if ops >= n and len(fr) <= keep: break
        if len(fr) <= 1: break
        if rng.random() < .65:
            m = min(len(fr), rng.choice([2, 2, 2, 3]))
            sel = rng.sample(fr, m)
            if loops(d, sel): continue
            new = f'n{k}' if rng.random() < .5 or m == 1 or len(fr) == m else None
            k += new is not None
            l = sel+([new] if new else [])
            if rng.random() < .5: rng.shuffle(l)
            e = ('c',)+tuple(l)
        else: e = ('t', rng.choice(fr), rng.choice(['Z', 'Y', 'RC', 'D']), K.new())
        d['seq'].append(e); ops += 1
    return d

def loops(d, sel):
    """both ends of one series branch in one junction: no unique solution when it is lumped"""
    bl = [p.split('.')[0] for p in sel if '.' in p]
    return any(bl.count(b) > 1 and any(x['t'] == 'rlc' for x in deep(d['blocks'][b]['d'])) for b in bl)
def deep(d):
    if d['t'] != 'circ': return [d]
    return [x for b in d['blocks'].values() for x in deep(b['d'])]

def size(d):
    return sum(size(b['d']) if b['d']['t'] == 'circ' else len(ports(b['d'])) for b in d['blocks'].values())+sum(e[0] == 'c' for e in d['seq'])

def gen_set(rng, d, one=False, most=3):
    st = settable(d)
    if not st: return None
    items = []
    for p, a in rng.sample(st, min(len(st), 1 if one else rng.randint(1, most))): items.append((p, a, rng.randint(0, 2)))
    return items

def gen_action(rng, K, d, evals=.5, grow_ok=True, maxv=True, pick=None):
    """a random action for the state d"""
    circ = d['t'] == 'circ'
    f = rng.choice([F1, F1, F2])
    Zk = rng.choice([None, 1, 2])
    if rng.random() < evals:
        r = rng.random()
        if r < .55 or not circ:
            if maxv and not circ and r < .25: return ('maxV', f, Zk if d['t'] != 'tab' else Zk)
            return ('getS', rng.choice([f, f, (F2, F1), (F1, F2, F1)]), Zk, rng.choice([None, None, {}, {'sNp': False}]))
        if r < .75: return ('sol', f, Zk, None)
        if r < .8: return ('meta',)
        if r < .9 and maxv: return ('maxV', f, Zk)
        return ('getS', f, None, None)
    r = rng.random()
    if not circ:
        if d['t'] == 'obj':
            if r < .5: return ('setS', rng.choice([F1, F2]), K.new())
            return ('item', rng.randrange(len(d['tab'])), K.new())
        it = gen_set(rng, d)
        if it is None: return ('getS', f, Zk, None)
        if d['t'] in ('rlc', 'trl') and r < .3: return ('params', f, it)
        return ('set', 'kw', it)
    if r < .4:
        it = gen_set(rng, d)
        if it:
            form = rng.choice(FORMS)
            return ('set', form, it)
    if r < .5:
        it = gen_set(rng, d, True)
        if it: return ('params', f, it)
    if r < .68:
        ps = paths(d)
        p = rng.choice(ps)
        old = leaf(d, p)
        n = len(ports(old))
        for _ in range(30):
            new = gen_leaf(rng, K, KINDS) if rng.random() < .7 else gen(rng, K, 0)
            if len(ports(new)) == n and parless(d, p): return ('repl', p, new, f'R{K.new()}')
    if r < .9:
        done = [e[1] for e in d['seq'] if e[0] == 't']
        fr = free(d)
        if done and (rng.random() < .6 or len(fr) < 2 or d['pn']): return ('op', ('t', rng.choice(done), rng.choice(['Z', 'Y', 'RC', 'D']), K.new()))
        if len(fr) > 1 and not d['pn']: return ('op', ('t', rng.choice(fr), rng.choice(['Z', 'Y', 'RC', 'D']), K.new()))
    if grow_ok and not d['pn']:
        fr = free(d)
        k = sum(e[0] == 'c' for e in d['seq'])
        if rng.random() < .5 and len(fr) > 1:
            m = min(len(fr), 2)
            if loops(d, l := rng.sample(fr, m)): return ('getS', f, Zk, None)
            l = l+([f'n{k}'] if rng.random() < .5 or len(fr) == m else [])
            return ('op', ('c',)+tuple(l))
        if len(d['blocks']) < 4:
            x = gen_leaf(rng, K, KINDS)
            n = 'BXQWV'[len(d['blocks'])]
            return ('op', ('b', n), gen_block(rng, K, x, KINDS), f'A{K.new()}')
    return ('getS', f, Zk, None)

def parless(d, p):
    q, n = p.rpartition('.')[::2]
    return not leaf(d, q)['blocks'][n]['par']

def retab(d, f, q):
    d['tab'] = [(g, q if g == f else k) for g, k in d['tab']]+([] if any(g == f for g, _ in d['tab']) else [(f, q)])

EVALS = ('getS', 'sol', 'maxV', 'int', 'params', 'meta')
def sim(d, a):
    """the effect of an action on the description only"""
    class C: pass
    k = a[0]
    if k in ('params', 'set'):
        for p, at, q in a[2]: leaf(d, p)['el'][at] = q
    elif k == 'repl':
        q, n = a[1].rpartition('.')[::2]
        leaf(d, q)['blocks'][n]['d'] = _copy.deepcopy(a[2])
    elif k == 'op':
        e = a[1]
        if e[0] == 'b': d['blocks'][e[1]] = _copy.deepcopy(a[2])
        if e[0] == 't' and any(x[:2] == e[:2] for x in d['seq']): d['seq'] = [e if x[:2] == e[:2] else x for x in d['seq']]
        else:
            d['seq'].append(e)
            if e[0] == 't' and d['pn']: d['pn'] = [p for p in d['pn'] if p != e[1]]
    elif k == 'setS': retab(d, a[1], a[2])
    elif k == 'item': d['tab'][a[1]] = (d['tab'][a[1]][0], a[2])

def history(rng, d, n, K=None, top=10, **kw):
    K = K or Keys(); K.n = 1000+K.n
    e = _copy.deepcopy(d)
    out = []
    for _ in range(n):
        a = gen_action(rng, K, e, **kw)
        if e['t'] == 'circ' and size(e) > top and a[0] == 'op' and a[1][0] in 'bc': continue
        sim(e, a); out.append(a)
    return out

def worlds(seed, count, n=7, maxsize=8, root=None, kinds=KINDS, depth=(0, 1, 1, 2), **kw):
    out, i = [], 0
    while len(out) < count:
        rng = random.Random(f'{seed}/{i}'); i += 1
        K = Keys()
        d = gen_model(rng, K) if root == 'gtl' else gen(rng, K, depth=rng.choice(depth), kinds=kinds, models=True) if root == 'in' else gen(rng, K, depth=rng.choice(depth), kinds=kinds) if root is None else gen_leaf(rng, K, (root,))
        if d['t'] == 'circ' and (size(d) > maxsize or not free(d)): continue
        out.append((d, history(rng, d, n, K, **kw)))
    return out
