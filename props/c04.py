"""C04 the free ports"""
from vc.api import S
from . import _circ as ci
LEVEL = 'other'
BOUNDS = ('building programs of up to 10 ports, 2 nesting levels; port lists checked after every building step; rejected requests tried in every state of the programs'
          '; concrete runs only (bounded, not proved): circuits of about 20 ports')
EXPLANATION = ('the port list (names, order, number) is compared after each building step and after solving with the one the specification computes for the '
               'program; every kind of meaningless request is issued in every intermediate state, must raise and must leave ports and S-matrix as they were. Block contents are symbolic throughout.')
T = 'rfCircuit.addblock,rfCircuit.connect,rfCircuit.terminate,rfCircuit.extS,rfCircuit.__len__,rfCircuit.deembed'
P = ci.Prog

def ports(c, pr):
    def each(o, free):
        c.eq('ports', list(o.ports), list(free))
        c.true('len', len(o) == len(free))
        c.true('positions', len(o.xpos) == len(free))
    o, net, free = ci.build(c, pr, each=each)
    Sm = o.getS(ci.F)
    c.eq('solved ports', list(o.ports), list(free))
    c.true('solved len', len(o) == len(free) == len(o.xpos))
    c.eq('shape', tuple(c.np.shape(Sm)), (len(free), len(free)))
    Sm = o.getS([ci.F, ci.F])
    c.eq('shape', tuple(c.np.shape(Sm)), (2, len(free), len(free)))
    # terminating an external port afterwards
    if len(free) > 1:
        p = free[len(free)//2]
        o.terminate(p, RC=c.cplx('late', .5))
        left = [q for q in free if q != p]
        c.eq('ports after late termination', list(o.ports), left)
        c.eq('shape after late termination', tuple(c.np.shape(o.getS(ci.F))), (len(left), len(left)))
        c.eq('ports after late termination', list(o.ports), left)
        c.true('len', len(o) == len(left) == len(o.xpos))

def rows(c, pr):
    """rows and columns of S follow the port order: each entry is the wave relation of the two named ports"""
    o, net, free = ci.build(c, pr)
    Sm = o.getS(ci.F)
    for j, p in enumerate(o.ports):
        x = net.solve(free, {q: (1 if q == p else 0) for q in free}, net.Zb)
        for i, q in enumerate(o.ports):
            c.eq(f'S[{q},{p}]', Sm[i, j], (x[('V', q)]-net.Zb*x[('I', q)])/2)

def rejected(c, pr):
    """meaningless requests in every state"""
    n = len(pr.ops)
    for k in range(n+1):
        def mk():
            o, net, free = ci.build(c, P(pr.blocks, pr.ops, pr.maps, pr.Zb), upto=k)
            return o, net, free
        o, net, free = mk()
        known = [w[2:] for w in o.waves if w[:2] == '->']
        used = [p for p in known if p not in free]
        bp = free[0]
        c.raises('two new names', lambda: mk()[0].connect(bp, 'U1', 'U2'))
        c.raises('dotted new name', lambda: mk()[0].connect(bp, 'U1.x'))
        c.raises('unknown block port', lambda: mk()[0].connect(bp, pr.blocks[0][0]+'.nonexistent'))
        c.raises('terminate unknown', lambda: mk()[0].terminate('U1', Z=3.))
        c.raises('terminate unknown block port', lambda: mk()[0].terminate(pr.blocks[0][0]+'.nonexistent', RC=0.))
        c.raises('two terminations', lambda: mk()[0].terminate(bp, Z=3., Y=2.))
        c.raises('unknown termination', lambda: mk()[0].terminate(bp, X=3.))
        c.raises('port twice', lambda: mk()[0].connect(bp, bp))
        tm = [op[1] for op in pr.ops[:k] if op[0] == 't']
        for p in used:
            c.raises(f'connect used port', lambda: mk()[0].connect(bp, p))
            c.raises(f'connect used port to new', lambda: mk()[0].connect(p, 'U1'))
            if p not in tm: c.raises(f'terminate used port', lambda: mk()[0].terminate(p, Z=1.))
        # what is rejected changes nothing
        o = mk()[0]; was = list(o.ports)
        c.raises('new ports only', lambda: o.connect('U1'))
        c.raises('unknown port', lambda: o.connect(bp, 'Q.q'))
        for p in used:
            c.raises('used port after free ones', lambda: o.connect(*was, p))
            c.raises('used port and new one', lambda: o.connect('U1', bp, p))
        c.raises('port twice', lambda: o.connect('U2', bp, bp))
        c.raises('names twice', lambda: o.addblock('NEW', c.cmat('R', 2), ports=['a', 'a']))
        c.raises('names twice', lambda: o.addblock('NEW', ci.tab(c, 'R', 2)[0], ports={'a': 'b'}))
        c.raises('unknown port', lambda: o.terminate('U1', Z=1.))
        c.raises('two values', lambda: o.terminate(bp, Z=1., Y=1.))
        c.eq('ports as they were', list(o.ports), was)
        e, x = c.call(lambda: mk()[0].getS(ci.F))
        if e is None: c.eq('S-matrix as it was', o.getS(ci.F), x)
        name = pr.blocks[0][0]
        m = len(mk()[0].blocks[name]['object'])
        c.raises('replacement size', lambda: mk()[0].addblock(name, ci.tab(c, 'R', m+1)[0]))
        if m > 1: c.raises('replacement size', lambda: mk()[0].addblock(name, ci.tab(c, 'R', m-1)[0]))
        o = mk()[0]; own = list(o.blocks[name]['ports'])
        x = c.cmat('R', m)
        c.raises('replacement, map of missing port', lambda: o.addblock(name, ci.tab(c, 'R', m)[0], ports={'zz': 'y'}))
        c.raises('replacement, other names', lambda: o.addblock(name, x, ports=own[:-1]+['other']))
        if m > 1: c.raises('replacement, names exchanged', lambda: o.addblock(name, x, ports=[own[1], own[0]]+own[2:]))
        for n, kind, a in pr.blocks:
            if kind == 'circ':
                c.raises('replacement of a block that is not there', lambda: o.addblock(n+'.NEW', ci.tab(c, 'R', 2)[0]))
                c.raises('replacement below a missing block', lambda: o.addblock(n+'.NEW.x', ci.tab(c, 'R', 2)[0]))
        c.eq('ports as they were', list(o.ports), list(mk()[0].ports))
        o.addblock(name, x, ports=own)
        c.eq('ports as they were', list(o.ports), list(mk()[0].ports))
        c.raises('map of missing port', lambda: mk()[0].addblock('NEW', ci.tab(c, 'R', 2)[0], ports={'zz': 'y'}))
        c.raises('map partly missing', lambda: mk()[0].addblock('NEW', ci.tab(c, 'R', 2)[0], ports={'a': 'y', 'zz': 'x'}))
        c.raises('too many names', lambda: mk()[0].addblock('NEW', c.cmat('R', 2), ports=['a', 'b', 'c']))
        c.raises('too few names', lambda: mk()[0].addblock('NEW', ci.tab(c, 'R', 2)[0], ports=['a']))
        c.raises('dict for an array', lambda: mk()[0].addblock('NEW', c.cmat('R', 2), ports={'1': 'a'}))
        c.raises('replace in missing block', lambda: mk()[0].addblock('ZZ.x', ci.tab(c, 'R', 1)[0]))

def announced(c, pr, how):
    q = P(pr.blocks, pr.ops, pr.maps, pr.Zb)
    free = list(pr.free)
    if how == 'missing': pn = free[:-1]
    elif how == 'extra': pn = free+['other']
    elif how == 'wrong': pn = free[:-1]+['other']
    elif how == 'used': pn = free[:-1]+[[w for w in allports(pr) if w not in free][0]]
    elif how == 'reversed': pn = free[::-1]
    q.portnames = pn; q.free = pn
    if how == 'reversed':
        o, net, fr = ci.build(c, q)
        o.getS(ci.F)
        c.eq('announced order', list(o.ports), pn)
        c.eq('as declared before', list(ci.build(c, q)[0].ports), free0(c, pr))
    elif how == 'missing' and not pn: return
    else:
        o, net, fr = ci.build(c, q)
        c.raises('announced names '+how, lambda: o.getS(ci.F))

def free0(c, pr):
    return list(ci.build(c, P(pr.blocks, pr.ops, pr.maps, pr.Zb))[2])

def allports(pr):
    l = []
    for n, k, a in pr.blocks:
        ps = ['s', 'p'] if k == 'rlc' else ci.pnames(a) if k != 'circ' else a.free
        l += [f'{n}.{pr.maps.get(n, {}).get(p, p)}' for p in ps]
    return l

def names(c):
    """the ways to name a block's ports"""
    C = c.rf.rfCircuit
    def chk(label, ports, expect, **k):
        o = C(); o.addblock('B', k.get('obj', None) if 'obj' in k else ci.tab(c, 'B', 3)[0], **({} if ports is None else {'ports': ports}))
        c.eq(label, list(o.ports), ['B.'+p for p in expect])
        c.eq(label+' solved', list((o.getS(ci.F), o.ports)[1]), ['B.'+p for p in expect])
    chk('own', None, ['a', 'b', 'c'])
    chk('empty dict', {}, ['a', 'b', 'c'])
    chk('dict', {'b': 'x'}, ['a', 'x', 'c'])
    chk('swap', {'b': 'a', 'a': 'b'}, ['b', 'a', 'c'])
    chk('list', ['u', 'v', 'w'], ['u', 'v', 'w'])
    chk('format', 'p%d', ['p1', 'p2', 'p3'])
    chk('array', None, ['1', '2', '3'], obj=c.cmat('A', 3))
    chk('array list', ['u', 'v', 'w'], ['u', 'v', 'w'], obj=c.cmat('A', 3))
    chk('array format', 'p%d', ['p1', 'p2', 'p3'], obj=c.cmat('A', 3))

def replaced(c):
    """a replaced block keeps its ports"""
    o = c.rf.rfCircuit(Zbase=c.pos('Z', 5, 60))
    o.addblock('B', ci.tab(c, 'B', 3)[0], ports={'a': 'x'})
    o.addblock('D', ci.tab(c, 'D', 2)[0])
    o.connect('B.b', 'D.a')
    o.addblock('B', ci.tab(c, 'R', 3)[0])
    want = ['B.x', 'B.c', 'D.b']
    c.eq('ports', list(o.ports), want)
    o.getS(ci.F)
    o.addblock('B', ci.tab(c, 'Q', 3)[0])
    c.eq('ports', list(o.ports), want)
    c.eq('shape', tuple(c.np.shape(o.getS(ci.F))), (3, 3))
    c.true('len', len(o) == 3)
    o = c.rf.rfCircuit()
    c.eq('empty', list(o.ports), []); c.true('empty', len(o) == 0)

def late(c, order):
    """terminations and changes in any order after the circuit was solved"""
    o = c.rf.rfCircuit(Zbase=c.pos('Z', 5, 60))
    o.addblock('B', ci.tab(c, 'B', 3)[0]); o.addblock('D', ci.tab(c, 'D', 3)[0])
    o.connect('B.a', 'D.a', 'J')
    left = ['B.b', 'B.c', 'D.b', 'D.c', 'J']
    c.eq('ports', list(o.ports), left)
    o.getS(ci.F)
    for p in order:
        o.terminate(p, Z=c.pos('T'+p, 5, 60))
        left = [q for q in left if q != p]
        c.eq('ports', list(o.ports), left)
        S_ = o.getS(ci.F)
        c.eq('ports', list(o.ports), left)
        c.eq('shape', tuple(c.np.shape(S_)), (len(left),)*2)
        o.terminate(p, Y=c.pos('U'+p, .1, 2))           # again: the same port stays terminated
        c.eq('ports', list(o.ports), left)
        c.true('len', len(o) == len(left))

def scenarios(tier):
    L = [S('names', names, target=T), S('replaced', replaced, target=T)]
    for i, o in enumerate((['B.b'], ['J', 'D.c'], ['D.c', 'B.b', 'J'], ['B.b', 'B.c', 'D.b', 'D.c'])):
        L.append(S(f'late {i}', late, dict(order=o), target=T))
    n = 60 if tier == 'quick' else 400
    for i, pr in enumerate(ci.programs('c04', n, maxp=10)):
        L.append(S(f'ports {i}', ports, dict(pr=pr), target=T, conc=1, tl=60))
        if i % 2 == 0: L.append(S(f'rows {i}', rows, dict(pr=pr), target=T, conc=1, tl=60))
    for i, pr in enumerate(ci.programs('c04r', 12 if tier == 'quick' else 60, maxp=7, pn=False)):
        L.append(S(f'rejected {i}', rejected, dict(pr=pr), target=T, conc=1, tl=60))
    k = 0
    for i, pr in enumerate(ci.programs('c04a', 24 if tier == 'quick' else 100, maxp=8, pn=False)):
        for how in ('missing', 'extra', 'wrong', 'reversed', 'used'):
            if how in ('missing', 'reversed') and len(pr.free) < 2: continue
            if how == 'used' and all(p in pr.free for p in allports(pr)): continue
            L.append(S(f'announced {how} {i}', announced, dict(pr=pr, how=how), target=T, conc=1))
    for i, pr in enumerate(ci.bigs('c04', 20 if tier == 'quick' else 200)):
        L.append(S(f'large {i}', [ports, rows][i % 2], dict(pr=pr), target=T, sym=False, conc=1))
    return L
