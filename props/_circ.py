"""Building programs for circuits and, independently of the code, the network each
of them describes: unknown voltages and currents of every port, one linear equation
per block port, junction condition and termination."""
import random

def lin(*ts): return list(ts)

class Net:
    """the network in terms of V, I (I into the block / into the circuit at a new node)"""
    def __init__(s, c):
        s.c, s.ports, s.eqs, s.free, s.pos, s.used = c, [], [], [], {}, {}
    def port(s, p): s.ports.append(p)
    def block(s, name, ports, S, Z0):
        for p in ports: s.port(f'{name}.{p}')
        s.law([f'{name}.{p}' for p in ports], S, Z0)
    def law(s, ps, S, Z0):
        """V - Z0 I = S (V + Z0 I)"""
        n = len(ps)
        for i in range(n):
            row = []
            for j in range(n):
                d = 1 if i == j else 0
                row += [(('V', ps[j]), d-S[i][j]), (('I', ps[j]), -Z0*(d+S[i][j]))]
            s.eqs.append((row, 0))
    def sub(s, name, net, ports, free):
        """a nested network; its ports get the given names here"""
        m = {}
        for p in net.ports:
            q = f'{name}.{ports[free.index(p)]}' if p in free else f'{name}/{p}'
            m[p] = q; s.port(q)
        for row, r in net.eqs: s.eqs.append(([((k, m[p]), v) for (k, p), v in row], r))
        # an external port of the nested circuit: the current is into the circuit, for a block port as for a new node
        return m
    def junction(s, old, new=None):
        ps = list(old)
        if new is not None: s.port(new)
        every = ps+([new] if new is not None else [])
        for p in every[1:]: s.eqs.append(([(('V', every[0]), 1), (('V', p), -1)], 0))
        s.eqs.append(([(('I', p), 1) for p in ps]+([(('I', new), -1)] if new is not None else []), 0))
    def term(s, p, kind, v, Z0):
        if kind == 'Z': row = [(('V', p), 1), (('I', p), v)]
        elif kind == 'Y': row = [(('I', p), 1), (('V', p), v)]
        else: row = [(('V', p), 1-v), (('I', p), Z0*(1+v))]     # a = RC b, a = (V+Z0 I)/2, b = (V-Z0 I)/2
        s.eqs.append((row, 0))
    def solve(s, free, exc, Z):
        """all V, I for incident waves exc {port: a} at reference impedance Z"""
        c = s.c
        ix = {}
        for p in s.ports: ix[('V', p)] = len(ix); ix[('I', p)] = len(ix)
        n = len(ix)
        A = [[0]*n for _ in range(n)]; b = [0]*n
        eqs = s.eqs+[([(('V', p), 1), (('I', p), Z)], 2*exc[p]) for p in free]
        assert len(eqs) == n, (len(eqs), n)
        for r, (row, v) in enumerate(eqs):
            for k, x in row: A[r][ix[k]] = A[r][ix[k]]+x
            b[r] = v
        if c.symbolic:
            x = solve_sparse(A, b)
        else:
            x = c.np.linalg.solve(c.np.array(A, dtype=complex), c.np.array(b, dtype=complex))
        return {k: x[i] for k, i in ix.items()}

def solve_sparse(A, b):
    from vc import shim
    return shim.solve_terms(A, [[t] for t in b])[:, 0]

# --- blocks -------------------------------------------------------------
F = 45e6
def pnames(n): return (['a', 'b', 'c', 'd', 'e']+[f'p{k}' for k in range(6, n+1)])[:n]

def tab(c, nm, n, Zb=None, f=F, Id=None, xpos=None, ports=None):
    """a table object with arbitrary S at f and its own reference impedance"""
    S = c.cmat('S'+nm, n)
    Z = 50. if Zb is None else Zb
    kw = {} if xpos is None else {'xpos': xpos}
    return c.rf.rfBase(Ss=[S], fs=[f], ports=ports or pnames(n), Zbase=Z, Id=Id or nm, **kw), S, Z

class Law:
    def __init__(s, Z, b, L): s.Z, s.b, s.L = Z, b, L
    def __call__(s, f, x):
        """cosh, sinh of the propagation over x, and the line impedance"""
        th = s.b(f)*x
        return s.c.np.cos(th), 1j*s.c.np.sin(th), s.Z
def line(c, nm, pts, **kw):
    """a lossless line sampled at the given number of points"""
    L = c.pos('L'+nm, .2, 2); Zl = c.pos('Zl'+nm, 10, 90); Zr = c.pos('Z'+nm, 5, 60)
    o = c.rf.rfTRL(L=L, Z0TL=Zl, Zbase=Zr, dx=L/(pts-.5), **kw)
    law = Law(Zl, lambda f: 2*c.pi*f/c.c0, L); law.c = c; law.n = pts
    return o, law

class Prog:
    """blocks: (name, kind, arg) with kind tab/tabZ/arr/circ; ops: ('c', ports...) / ('t', port, kind)
    maps: {block: {old: new}}; Zb: reference impedance key or None (50)"""
    def __init__(s, blocks, ops, maps=None, Zb=None, portnames=None, inter=False, rel=None):
        s.blocks, s.ops, s.maps, s.Zb, s.portnames = blocks, ops, maps or {}, Zb, portnames
        s.rel = rel or {}
    def newport(s, p, known): return p not in known

def build(c, pr, tag='', f=F, Id='C', upto=None, each=None, generic=False):
    """(circuit object, Net, free ports in declared order)"""
    Zb = 50. if pr.Zb is None else c.pos('Zc'+tag+pr.Zb, 5, 60)
    kw = {'Portnames': list(pr.portnames)} if pr.portnames else {}
    o = c.rf.rfCircuit(Zbase=Zb, Id=Id+tag, **kw)
    net = Net(c); net.Zb = Zb; net.sub_ = {}; net.lines = {}; net.tables = {}; net.rlcs = {}; net.names = []
    free = []
    known = []
    def other(Z, Z2):
        # generic: only different impedances (equal ones are other programs)
        if generic and c.symbolic and Z is not Z2: c.assume(Z != Z2)
    for name, kind, arg in pr.blocks:
        mp = pr.maps.get(name, {})
        rk = {'relpos': pr.rel[name]} if name in pr.rel else {}
        if kind in ('tab', 'tabZ'):
            b, S, Z = tab(c, tag+name, arg, None if kind == 'tab' else c.pos('Z'+tag+name, 5, 60), f)
            other(Z, Zb)
            ps = [mp.get(p, p) for p in b.ports]
            o.addblock(name, b, **(dict(ports=dict(mp)) if mp else {}), **rk)
            net.tables[name] = [(q, f'{name}.{p}') for q, p in zip(b.ports, ps)]
            net.block(name, ps, S, Z)
        elif kind == 'arr':
            S = c.cmat('S'+tag+name, arg)
            ps = [mp.get(p, p) for p in pnames(arg)]
            o.addblock(name, S, ports=ps, **rk)
            net.block(name, ps, S, Zb)
        elif kind == 'circ':
            b, n2, fr2 = build(c, arg, tag+name+'_', f, generic=generic); other(n2.Zb, Zb)
            ps = [mp.get(p, p) for p in fr2]
            if arg.portnames and len(arg.ops) % 2: b.getS(f)      # solved before it is placed, or not
            o.addblock(name, b, **(dict(ports=dict(mp)) if mp else {}), **rk)
            net.sub_[name] = (n2, net.sub(name, n2, ps, fr2))
        elif kind == 'rlc':
            el = {e: c.pos(e+tag+name, .3, 3) for e in arg}
            sc = {'Rs': 1, 'Rp': 1, 'Ls': 1e-7, 'Lp': 1e-7, 'Cs': 1e-10, 'Cp': 1e-10}
            el = {e: v*sc[e] for e, v in el.items()}
            Z = c.pos('Z'+tag+name, 5, 60)
            b = c.rf.rfRLC(Zbase=Z, **el); other(Z, Zb)
            ps = [mp.get(p, p) for p in b.ports]
            o.addblock(name, b, **(dict(ports=dict(mp)) if mp else {}), **rk)
            jw = 2j*c.pi*f
            zs = el.get('Rs', 0)+jw*el.get('Ls', 0)+(1/(jw*el['Cs']) if 'Cs' in el else 0)
            yp = (1/el['Rp'] if 'Rp' in el else 0)+(1/(jw*el['Lp']) if 'Lp' in el else 0)+jw*el.get('Cp', 0)
            s_, p_ = [f'{name}.{q}' for q in ps]
            for p in (s_, p_): net.port(p)
            net.rlcs[name] = [s_, p_]
            net.eqs.append(([(('V', s_), 1), (('V', p_), -1), (('I', s_), -zs)], 0))
            net.eqs.append(([(('I', s_), 1), (('I', p_), 1), (('V', p_), -yp)], 0))
        elif kind == 'trl':
            o_, law = line(c, tag+name, arg)
            other(o_.Zbase, Zb)
            ps = [mp.get(p, p) for p in o_.ports]
            o.addblock(name, o_, **(dict(ports=dict(mp)) if mp else {}), **rk)
            p1, p2 = [f'{name}.{q}' for q in ps]
            for p in (p1, p2): net.port(p)
            ch, sh, Zl = law(f, law.L)
            net.eqs.append(([(('V', p2), 1), (('V', p1), -ch), (('I', p1), Zl*sh)], 0))
            net.eqs.append(([(('I', p2), 1), (('V', p1), -sh/Zl), (('I', p1), ch)], 0))
            net.lines[name] = (law, p1)
        else: raise ValueError(kind)
        free += [f'{name}.{p}' for p in ps]
        known += [f'{name}.{p}' for p in ps]
        if each: each(o, free)
    k = 0
    for op in pr.ops if upto is None else pr.ops[:upto]:
        if op[0] == 'c':
            new = [p for p in op[1:] if p not in known]
            o.connect(*op[1:])
            net.junction([p for p in op[1:] if p in known], new[0] if new else None)
            free = [p for p in free if p not in op[1:]]+new
            known += new
        else:
            _, p, kind = op
            v = c.cplx(f'T{tag}{k}', 2.)
            if kind == 'Z': v = v*20
            if kind == 'Y': v = v/20
            o.terminate(p, **{kind: v}) if kind != 'D' else o.terminate(p)
            net.term(p, 'RC' if kind == 'D' else kind, 0 if kind == 'D' else v, Zb)
            free = [q for q in free if q != p]
            k += 1
        if each: each(o, free)
    if pr.portnames: free = list(pr.portnames)
    return o, net, free

def refS(c, net, free, Z):
    """columns of the reference S-matrix at Z"""
    n = len(free)
    cols = []
    for k in range(n):
        x = net.solve(free, {p: (1 if j == k else 0) for j, p in enumerate(free)}, Z)
        cols.append([(x[('V', p)]-Z*x[('I', p)])/2 for p in free])
    return [[cols[j][i] for j in range(n)] for i in range(n)]

# --- generation -----------------------------------------------------------
TRIPLES = (('B', 'X', 'Q'), ('BX', 'B', 'BXQ'), ('X2', 'X', 'X21'), ('B', 'X', 'Q'), ('1', '11', '111'), ('s', 'm0', 'a'))
def names(rng):
    """names of blocks, also ones that begin with another's or are also names of ports (the generator's state is left as it is)"""
    return TRIPLES[sum(rng.getstate()[1][:5])%len(TRIPLES)]
def gen(rng, depth=1, nb=None, kinds=('tab', 'tabZ', 'arr', 'rlc'), keep=2, maxports=10, pn=True, prefix=''):
    """a random building program with at least one free port left"""
    nb = nb or rng.randint(1, 3)
    blocks, ports, maps = [], [], {}
    nms = names(rng)
    for i in range(nb):
        name = prefix+nms[i%3]+('' if i < 3 else str(i))
        kind = rng.choice(kinds+(('circ',) if depth > 0 else ()))
        if kind == 'circ':
            sub = gen(rng, depth-1, rng.randint(1, 2), kinds, 2, 5, pn)
            arg = sub; ps = list(sub.free)
        elif kind == 'trl': arg = rng.randint(2, 4); ps = ['1', '2']
        elif kind == 'rlc':
            arg = [e for e in ('Rs', 'Ls', 'Cs', 'Rp', 'Lp', 'Cp') if rng.random() < .5]; ps = ['s', 'p']
            if not any(e in arg for e in ('Rs', 'Ls', 'Cs')): arg.append('Ls')
        else:
            arg = rng.randint(1, 4 if nb == 1 else 3); ps = pnames(arg)
        if rng.random() < .4 and kind not in ('rlc', 'trl') or rng.random() < .2:
            mp = {}
            for p in ps:
                if rng.random() < .6: mp[p] = f'm{len(mp)}'
            if rng.random() < .3 and len(ps) > 1: mp = {ps[0]: ps[1], ps[1]: ps[0]}     # exchanged names
            if mp: maps[name] = mp
        ps = [maps.get(name, {}).get(p, p) for p in ps]
        blocks.append((name, kind, arg)); ports += [f'{name}.{p}' for p in ps]
    free, ops, k = list(ports), [], 0
    n = rng.randint(0, 4)
    for _ in range(12):
        if len(ops) >= n and len(free) <= keep: break
        if len(free) <= 1: break
        r = rng.random()
        if r < .6:
            m = min(len(free), rng.choice([1, 2, 2, 2, 3, 3, 4]))
            sel = rng.sample(free, m)
            new = None
            if rng.random() < .5 or m == 1 or len(free)-m == 0:
                new = f'n{k}'; k += 1
            if new is None and m == 1: continue
            l = sel+([new] if new else [])
            rng.shuffle(l) if rng.random() < .5 else None
            ops.append(('c',)+tuple(l))
            free = [p for p in free if p not in sel]+([new] if new else [])
        elif len(free) > 1:
            p = rng.choice(free)
            ops.append(('t', p, rng.choice(['Z', 'Y', 'RC', 'RC', 'D'])))
            free = [q for q in free if q != p]
    pr = Prog(blocks, ops, maps, rng.choice([None, 'x', 'x']))
    if pn and rng.random() < .4:
        pr.portnames = list(free); rng.shuffle(pr.portnames); free = list(pr.portnames)
    pr.free = free
    return pr

def big(rng, depth=1, sub=False):
    """larger than what is proved: many blocks, ports and operations, numbered names"""
    nb = rng.randint(2, 4) if sub else rng.randint(4, 12)
    blocks, maps, ports = [], {}, []
    for i in range(nb):
        name = rng.choice(['B', 'blk', 'line-', '_'])+str(i+7)
        kind = rng.choice(('tab', 'tabZ', 'arr', 'rlc', 'trl')+(('circ',)*2 if depth > 0 else ()))
        if kind == 'circ': arg = big(rng, depth-1, True); ps = list(arg.free)
        elif kind == 'trl': arg = 3; ps = ['1', '2']
        elif kind == 'rlc': arg = ['Ls', rng.choice(['Rs', 'Cp', 'Rp', 'Cs'])]; ps = ['s', 'p']
        else: arg = rng.choice([1, 2, 2, 3, 4, 6, 11]); ps = pnames(arg)
        if kind not in ('rlc', 'trl') and rng.random() < .4: maps[name] = {p: f'{k+8}' for k, p in enumerate(ps) if rng.random() < .7}
        blocks.append((name, kind, arg)); ports += [f'{name}.{maps.get(name, {}).get(p, p)}' for p in ps]
    free, ops, k = list(ports), [], 0
    keep = rng.randint(2, 14)
    for _ in range(60):
        if len(free) <= keep: break
        if rng.random() < .75:
            m = min(len(free), rng.choice([1, 2, 2, 2, 3, 4, 5, 7, 9]))
            sel = rng.sample(free, m)
            bl = [p.split('.')[0] for p in sel]
            if any(bl.count(n) > 1 for n, q, _ in blocks if q in ('rlc', 'trl', 'circ')): continue
            new = None
            if rng.random() < .5 or m == 1 or len(free) == m: new = f'n{k+8}'; k += 1
            l = sel+([new] if new else [])
            rng.shuffle(l)
            ops.append(('c',)+tuple(l))
            free = [p for p in free if p not in sel]+([new] if new else [])
        elif len(free) > 1:
            p = rng.choice(free)
            ops.append(('t', p, rng.choice(['Z', 'Y', 'RC', 'D'])))
            free = [q for q in free if q != p]
    pr = Prog(blocks, ops, maps, rng.choice([None, 'x']))
    if rng.random() < .4:
        pr.portnames = list(free); rng.shuffle(pr.portnames); free = list(pr.portnames)
    pr.free = free
    return pr
def bigs(seed, count):
    return [big(random.Random(f'{seed}/big/{i}'), 1+i % 2) for i in range(count)]

def nports(pr):
    n = 0
    for name, kind, arg in pr.blocks:
        n += nports(arg) if kind == 'circ' else 2 if kind in ('rlc', 'trl') else arg
    return n+sum(1 for o in pr.ops if o[0] == 'c' and any('.' not in p for p in o[1:]))

def programs(seed, count, maxp=9, **k):
    out, i = [], 0
    while len(out) < count:
        rng = random.Random(f'{seed}/{i}'); i += 1
        pr = gen(rng, **k)
        if nports(pr) > maxp: continue
        out.append(pr)
    return out
