"""C03 circuit S-matrix"""
from vc.api import S
from . import _circ as ci
LEVEL = 'other'
BOUNDS = ('building programs of up to 10 ports and 2 nesting levels (enumerated junctions/terminations plus generated programs), all block S-matrices, impedances and terminations symbolic'
          '; concrete runs only (bounded, not proved): circuits of about 20 ports, junctions of many ports, 3 levels')
EXPLANATION = ('rfCircuit is executed symbolically for each building program with arbitrary (symbolic) block S-matrices, reference impedances and '
               'terminations; its S-matrix is proved, as an identity of rational functions, to be the one obtained from the V/I equations of the blocks, '
               'Kirchhoff junctions and terminations solved independently.')
T = 'rfCircuit.addblock,rfCircuit.connect,rfCircuit.terminate,rfCircuit.extS,rfCircuit.getS,rfBase.getS,rfBase.get1S,ConvertGeneral'

def smat(c, pr):
    o, net, free = ci.build(c, pr)
    S = o.getS(ci.F)
    c.eq('ports', list(o.ports), free)
    R = ci.refS(c, net, free, net.Zb)
    c.eq('S', S, c.np.array(R, dtype=complex))

def smatZ(c, pr):
    o, net, free = ci.build(c, pr)
    Z = c.pos('Zreq', 5, 60)
    c.eq('S', o.getS(ci.F, Zbase=Z), c.np.array(ci.refS(c, net, free, Z), dtype=complex))

def waves(c, pr):
    """b = S a for arbitrary incident waves"""
    o, net, free = ci.build(c, pr)
    a = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    S = o.getS(ci.F)
    x = net.solve(free, a, net.Zb)
    b = S @ c.np.array([a[p] for p in free], dtype=complex)
    c.eq('b', b, [(x[('V', p)]-net.Zb*x[('I', p)])/2 for p in free])

P = ci.Prog
def small():
    L = []
    for n in (1, 2, 3, 4, 5):      # one block, junction of n of its ports with or without a new one
        for m in range(1, n+1):
            ps = [f'B.{p}' for p in ci.pnames(n)][:m]
            L.append((f'join {m} of {n} new', P([('B', 'tab', n)], [('c',)+tuple(ps)+('J',)])))
            if m < n and m > 1: L.append((f'join {m} of {n}', P([('B', 'tab', n)], [('c',)+tuple(ps)])))
            if m < n: L.append((f'join new first {m} of {n}', P([('B', 'tabZ', n)], [('c', 'J')+tuple(reversed(ps))], Zb='x')))
    for k in ('Z', 'Y', 'RC', 'D'):
        for n in (2, 3):
            L.append((f'terminate {k} {n}', P([('B', 'tabZ', n)], [('t', 'B.b', k)], Zb='x')))
        L.append((f'terminate joined {k}', P([('B', 'tab', 2), ('X', 'tab', 2)], [('c', 'B.b', 'X.a', 'J'), ('t', 'J', k)], Zb='x')))
    for n in (2, 3):
        for m in (2, 3):
            for new in (False, True):
                L.append((f'series {n} {m} {new}', P([('B', 'tab', n), ('X', 'tabZ', m)], [('c', 'B.b', 'X.a')+(('J',) if new else ())])))
    L.append(('star', P([('B', 'tab', 2), ('X', 'tab', 2), ('Q', 'arr', 2)], [('c', 'B.b', 'X.b', 'Q.b')])))
    L.append(('tree', P([('B', 'tab', 2), ('X', 'tab', 2), ('Q', 'arr', 2)], [('c', 'B.b', 'X.b', 'J'), ('c', 'J', 'Q.a', 'K'), ('t', 'K', 'Z')])))
    L.append(('rename', P([('B', 'tab', 2)], [('c', 'B.a', 'J'), ('c', 'B.b', 'K'), ('c', 'K', 'L')], portnames=['L', 'J'])))
    inner = P([('B', 'tab', 2), ('X', 'tabZ', 2)], [('c', 'B.b', 'X.a', 'J')], Zb='i'); inner.free = ['B.a', 'X.b', 'J']
    L.append(('nest', P([('N', 'circ', inner), ('R', 'tab', 2)], [('c', 'N.B.a', 'R.a'), ('c', 'N.J', 'K')])))
    L.append(('nest mapped', P([('N', 'circ', inner), ('R', 'tab', 2)], [('c', 'N.in', 'R.a'), ('t', 'N.J', 'Y')], maps={'N': {'B.a': 'in', 'X.b': 'out'}}, Zb='x')))
    inner2 = P([('N', 'circ', inner)], [('c', 'N.B.a', 'A'), ('c', 'N.X.b', 'B')], Zb='j', portnames=['B', 'A', 'N.J']); inner2.free = ['B', 'A', 'N.J']
    L.append(('nest twice', P([('M', 'circ', inner2), ('R', 'arr', 1)], [('c', 'M.A', 'R.a', 'X')], Zb='x')))
    return L

def scenarios(tier):
    L = []
    for nm, pr in small():
        L.append(S('S '+nm, smat, dict(pr=pr), target=T, conc=2))
        L.append(S('S at Z '+nm, smatZ, dict(pr=pr), target=T, conc=1))
    n = 40 if tier == 'quick' else 400
    for i, pr in enumerate(ci.programs('c03', n, maxp=9 if tier == 'quick' else 12)):
        L.append(S(f'program {i}', [smat, smatZ, waves][i % 3], dict(pr=pr), target=T, conc=2, tl=60))
    for i, pr in enumerate(ci.bigs('c03', 20 if tier == 'quick' else 200)):
        L.append(S(f'large {i}', [smat, smatZ, waves][i % 3], dict(pr=pr), target=T, sym=False, conc=1))
    return L
