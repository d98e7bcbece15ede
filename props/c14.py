"""C14 node solutions"""
from vc.api import S
from . import _circ as ci
LEVEL = 'other'
BOUNDS = ('building programs of up to 9 ports, 2 nesting levels, block ports exchanged by the mapping; excitation, reference impedances, block matrices and terminations symbolic'
          '; concrete runs only (bounded, not proved): circuits of about 20 ports')
EXPLANATION = ('for every node, nested ones included, the reported (V, I, Vf, Vr) are proved equal to the solution of the network equations for the same '
               'excitation, and V = Vf+Vr, Zbase I = Vf-Vr; Get_internalSmatrix is proved to map the node waves of any excitation.')
T = 'rfCircuit.Solution,rfCircuit.solve,rfCircuit.getS,rfCircuit.extS,rfCircuit.Get_internalSmatrix'
P = ci.Prog

def check_nodes(c, sol, net, x, Z, prefix='', names=None, taken=None):
    """all nodes of this level, then of nested circuits"""
    taken = set() if taken is None else taken
    mine = [p for p in net.ports if '/' not in p and prefix+p not in taken]     # not those named as a port of the enclosing circuits: that one is reported
    for p in mine:
        q = names[p] if names else p
        V, I = x[('V', q)], x[('I', q)]
        c.true('node reported', prefix+p in sol)
        v, i, f, r = sol[prefix+p]
        sc = [V, Z*I]
        c.eq('V', v, V, scale=sc); c.eq('I', Z*i, Z*I, scale=sc)
        c.eq('Vf', f, (V+Z*I)/2, scale=sc); c.eq('Vr', r, (V-Z*I)/2, scale=sc)
        c.eq('V=Vf+Vr', v, f+r, scale=sc); c.eq('ZI=Vf-Vr', Z*i, f-r, scale=sc)
    for nm, (n2, m) in net.sub_.items():
        m2 = {p: (names[q] if names else q) for p, q in m.items()}
        check_nodes(c, sol, n2, x, Z, prefix+nm+'.', m2, taken | {prefix+p for p in mine})

def solution(c, pr, Zr):
    o, net, free = ci.build(c, pr)
    Z = c.pos('Zreq', 5, 60) if Zr else net.Zb
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    if not Zr: o.getS(ci.F)
    sol = o.Solution(ci.F, dict(E), **({'Zbase': Z} if Zr else {}))
    x = net.solve(free, E, Z)
    for p in free: c.eq('excitation', sol[p][2], E[p])
    check_nodes(c, sol, net, x, Z)

def subset(c, pr):
    """asking for some nodes, or only this level, reports the same values"""
    o, net, free = ci.build(c, pr)
    Z = c.pos('Zreq', 5, 60)
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    full = dict(o.Solution(ci.F, dict(E), Z))
    x = net.solve(free, E, Z)
    top = dict(o.Solution(ci.F, dict(E), Z, []))
    for p in net.ports:
        if '/' not in p:
            c.true('own level', p in top)
            c.eq('V', top[p][0], x[('V', p)], scale=[full[p][2]])
    for n in full:
        s1 = o.Solution(ci.F, dict(E), Z, [n])
        c.true('asked node', n in s1)
        if n in s1: c.eq('asked node', list(s1[n]), list(full[n]))

def internal(c, pr, rev, Zr):
    """the S-matrix between internal nodes relates the waves of any solution"""
    o, net, free = ci.build(c, pr)
    Z = c.pos('Zreq', 5, 60) if Zr else net.Zb
    cand = [p for p in net.ports if '/' not in p]
    nodes = cand[:len(free)]
    tags = [('<' if rev and k % 2 == 0 else '')+p for k, p in enumerate(nodes)]
    ex, R = c.call(lambda: o.Get_internalSmatrix(ci.F, tags, **({'Zbase': Z} if Zr else {})))
    if ex == 'LinAlgError': return      # these nodes do not determine the excitation
    c.eq('no exception', ex, None)
    if ex: return
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    x = net.solve(free, E, Z)
    A, B = [], []
    for t, p in zip(tags, nodes):
        V, I = x[('V', p)], x[('I', p)]
        f, r = (V+Z*I)/2, (V-Z*I)/2
        if t[0] == '<': f, r = r, f
        A.append(f); B.append(r)
    if not c.symbolic:
        c.assume(bool(c.np.linalg.cond(M_of(c, o, tags, free, Z)) < 1e5))
    c.eq('B = S A', list(R @ c.np.array(A, dtype=complex)), B)

def M_of(c, o, tags, free, Z):
    A = []
    for p in free:
        s = o.Solution(ci.F, {q: float(p == q) for q in free}, Z)
        A.append([s[t.strip('<')][3 if t[0] == '<' else 2] for t in tags])
    return c.np.array(A)

def toomany(c):
    o = c.rf.rfCircuit(); o.addblock('B', ci.tab(c, 'B', 2)[0]); o.addblock('D', ci.tab(c, 'D', 2)[0]); o.connect('B.b', 'D.a')
    c.raises('more nodes than ports', lambda: o.Get_internalSmatrix(ci.F, ['B.a', 'B.b', 'D.b']), ValueError)

def manual(c):
    """solve() stores the same waves"""
    pr = P([('B', 'tab', 2), ('D', 'tabZ', 2)], [('c', 'B.b', 'D.a', 'J')], Zb='x')
    o, net, free = ci.build(c, pr)
    Z = c.pos('Zreq', 5, 60)
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    o.getS(ci.F)
    free = list(o.ports)
    o.solve(ci.F, E, Z)
    x = net.solve(free, E, Z)
    for k, w in enumerate(o.waves):
        V, I = x[('V', w[2:])], x[('I', w[2:])]
        c.eq(w, o.sol[k], (V+net.Zb*I)/2 if w[:2] == '->' else (V-net.Zb*I)/2)

def exchanged(c, deep):
    """ports of nested circuits that exchange their names"""
    P0 = P([('R', 'tab', 2), ('S', 'tabZ', 2)], [('c', 'R.b', 'u'), ('c', 'v', 'S.b')], Zb='p'); P0.free = ['R.a', 'S.a', 'u', 'v']
    P1 = P([('N', 'circ', P0), ('T', 'arr', 2)], [('c', 'N.u', 'T.b', 'k'), ('t', 'N.R.a', 'Z')], maps={'N': {'u': 'v', 'v': 'u', 'R.a': 'S.a', 'S.a': 'R.a'}}, Zb='q')
    P1.free = ['N.S.a', 'N.v', 'T.a', 'k']
    P2 = P([('M', 'circ', P1), ('W', 'tab', 2)], [('c', 'M.k', 'W.a')], maps={'M': {'T.a': 'k', 'k': 'T.a'}} if deep == 2 else {}, Zb='r') if deep else P1
    if deep == 2: P2.ops = [('c', 'M.T.a', 'W.a')]
    o, net, free = ci.build(c, P2)
    Z = c.pos('Zreq', 5, 60)
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    sol = o.Solution(ci.F, dict(E), Z)
    check_nodes(c, sol, net, net.solve(free, E, Z), Z)

def model(c, depth):
    """a model that also has measured data: with the flag sNp off its nodes are those of the model alone"""
    from .c21 import write
    rf = c.rf
    X = c.cmat('S', 2); R, Zl, Z0, Z = c.pos('R', 20, 70), c.pos('Zl', 10, 90), c.pos('Zb', 5, 60), c.pos('Zreq', 5, 60)
    num = lambda x: f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        t = '! m\n# HZ S RI R '+num(R)+'\n'+' '.join([num(ci.F)]+[num(v) for z in X.T.flat for v in (c.np.real(z), c.np.imag(z))])+'\n'
    with open('d14.s2p', 'w') as g: g.write(t)
    M = lambda: {'Portnames': ['out', 'in'], 'GTL': {'A': {'Portnames': ['in', 'm'], 'Z0TL': Zl, 'L': 1.3}, 'B': {'Portnames': ['m', 'out'], 'Z0TL': 30., 'L': .4}}}
    name = write(c, {'M': dict(M(), sNp='d14.s2p'), 'N': M()}, 'c14.mod')
    Ls = c.pos('Ls')*1e-7
    def mk(k):
        o = rf.rfGTL(name, objkey=k, Zbase=Z0, Id='G')
        for k in range(depth):
            q = rf.rfCircuit(Id=f'C{k}', **({'Zbase': Z0} if k else {})); q.addblock('B', o)
            if not k: q.addblock('R', rf.rfRLC(Ls=Ls)); q.connect('R.p', 'B.in')
            o = q
        return o
    o, y = mk('M'), mk('N')
    y.getS(ci.F)
    E = {p: c.cplx('a'+p) for p in y.ports}
    for fl, x in (({'sNp': False}, o), ({'sNp': False}, o)):
        a, b = x.Solution(ci.F, dict(E), Z, flags=fl), y.Solution(ci.F, dict(E), Z)
        c.eq('nodes', sorted(a), sorted(b)); c.eq('values', [a[k] for k in sorted(a)], [b[k] for k in sorted(a)])
        x.getS(ci.F)

def deep(c, swap):
    """three levels with renamed ports"""
    P0 = P([('R', 'tab', 2), ('S', 'tabZ', 2)], [('c', 'R.b', 'S.a')], Zb='p'); P0.free = ['R.a', 'S.b']
    P1 = P([('N', 'circ', P0), ('T', 'arr', 2)], [('c', 'N.u', 'T.b', 'k')] if swap else [('c', 'N.S.b', 'T.b', 'k')],
           maps={'N': {'S.b': 'u', 'R.a': 'w'}} if swap else {}, Zb='q')
    P1.free = ['N.w' if swap else 'N.R.a', 'T.a', 'k']
    P2 = P([('M', 'circ', P1), ('W', 'tab', 2)], [('c', 'M.k', 'W.a')], maps={'M': {'T.a': 'v'}} if swap else {}, Zb='r')
    o, net, free = ci.build(c, P2)
    Z = c.pos('Zreq', 5, 60)
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    sol = o.Solution(ci.F, dict(E), Z)
    check_nodes(c, sol, net, net.solve(free, E, Z), Z)

def scenarios(tier):
    L = [S('too many nodes', toomany, target=T), S('solve', manual, target=T), S('deep', deep, dict(swap=False), target=T, tl=100), S('deep renamed', deep, dict(swap=True), target=T, tl=100)]
    for d in (0, 1, 2): L.append(S(f'exchanged {d}', exchanged, dict(deep=d), target=T, tl=100, conc=2))
    for d in (0, 1, 2): L.append(S(f'model {d}', model, dict(depth=d), target=T+',rfGTL.getS', tl=100, conc=2))
    n = 60 if tier == 'quick' else 400
    k = 0
    for i, pr in enumerate(ci.programs('c14', n, maxp=9)):
        L.append(S(f'solution {i}', solution, dict(pr=pr, Zr=k % 3 > 0), target=T, conc=2)); k += 1
        if i % 3 == 0: L.append(S(f'nodes {i}', subset, dict(pr=pr), target=T, conc=2))
        if i % 2 == 0: L.append(S(f'internal {i}', internal, dict(pr=pr, rev=i % 4 == 0, Zr=i % 3 > 0), target=T, conc=2))
    for i, pr in enumerate(ci.bigs('c14', 20 if tier == 'quick' else 200)):
        L.append(S(f'large {i}', [solution, subset, internal][i % 3], dict(pr=pr, **[dict(Zr=i % 2 > 0), {}, dict(rev=i % 2 == 0, Zr=True)][i % 3]), target=T, sym=False, conc=1))
    return L
