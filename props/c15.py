"""C15 maximum voltages"""
from vc.api import S
from . import _circ as ci
LEVEL = 'other'
BOUNDS = ('maxfun: any number of samples (loop cut by an invariant) and, path by path, up to 5; all values; tables up to 4 ports; circuits of generated programs up to 8 ports, lines of 2 to 4 samples; circuits holding tables kept in other units than Hz; models that also have measured data, after histories of up to 3 requests at two frequencies'
          '; concrete runs only (bounded, not proved): circuits of about 20 ports, profiles of 30 to 101 samples')
EXPLANATION = ('maxfun is verified for profiles of any length: its loop is cut mechanically at the invariant that the running maximum is at least both ends and the peaks met, '
               'and a sample or a vertex; the first of the largest samples is an end or one of the peaks. For small lengths it is also executed whole; on every path its result is proved at least every sample and one of the samples or the vertex of '
               'the parabola through three neighbours. maxV of tables, lumped elements, lines and circuits is executed with maxfun replaced by that contract; the '
               'maximum is proved at least every reported magnitude, one of them (or the value maxfun returned), and every reported magnitude equal to |V| of an '
               'independently written network / line solution.')
P = ci.Prog

def vertex(x, y):
    """value of the parabola through 3 points at its vertex"""
    s1, s2 = (y[1]-y[0])/(x[1]-x[0]), (y[2]-y[1])/(x[2]-x[1])
    a = (s2-s1)/(x[2]-x[0])
    m = s1+a*(x[1]-x[0])
    return x[1]-m/(2*a), y[1]-m*m/(4*a), a

def close(c, a, b):
    if c.symbolic: return a is b or c.eq1(a, b)[0] in ('syntactic', 'gf')
    return abs(a-b) <= 1e-7*(abs(a)+abs(b))+1e-12

def vertices(c, xs, ys, cond=True):
    out = []
    for k in range(len(ys)-2):
        if c.symbolic and not (bool(ys[k+1] >= ys[k]) and bool(ys[k+1] >= ys[k+2]) and not (bool(ys[k+1] == ys[k]) and bool(ys[k+1] == ys[k+2]))): continue
        if not c.symbolic and not (ys[k+1] >= ys[k] and ys[k+1] >= ys[k+2] and ys[k]+ys[k+2] < 2*ys[k+1]): continue
        out.append(vertex(xs[k:k+3], ys[k:k+3]))
    return out

def lemma(c):
    """three samples with the middle one a maximum: the vertex lies between them and above them"""
    h = [c.pos('h0', .1, 1), c.pos('h1', .1, 1)]
    x0 = c.real('x0'); x = [x0, x0+h[0], x0+h[0]+h[1]]
    y = [c.real(f'y{k}', hi=3) for k in range(3)]
    c.assume(y[0] <= y[1]); c.assume(y[2] <= y[1])
    if not bool(y[0] < y[1]): c.assume(y[2] < y[1])
    p = c.np.polyfit(c.np.array(x), c.np.array(y), deg=2)
    for k in range(3): c.eq('interpolates', p[0]*x[k]*x[k]+p[1]*x[k]+p[2], y[k], scale=y)
    xv, yv = -p[1]/(2*p[0]), p[2]-p[1]**2/(4*p[0])
    if c.symbolic: c.true('concave', p[0] < 0)
    c.le('left', x[0], xv); c.le('right', xv, x[2])
    for k in range(3): c.le('above', y[k], yv)
    v = vertex(x, y)
    c.eq('vertex x', xv, v[0], scale=x); c.eq('vertex y', yv, v[1], scale=y)

def use_lemma(c, ver):
    """np.polyfit of three samples by its contract together with the lemma above"""
    def f(np, x, y, deg):
        if deg != 2 or len(x) != 3: return np._polyfit(x, y, deg)
        for k in range(2): c.assume(x[k] < x[k+1])
        k = len(ver)
        a, b, d = c.real(f'pa{k}'), c.real(f'pb{k}'), c.real(f'pc{k}')
        xv, yv = -b/(2*a), d-b**2/(4*a)
        D = c.prover.decide
        from vc.term import SBool, cmp
        ge = lambda u, v: D_(c, cmp('le', v, u))
        gt = lambda u, v: D_(c, cmp('lt', v, u))
        if ge(y[1], y[0]) and ge(y[1], y[2]) and (gt(y[1], y[0]) or gt(y[1], y[2])):
            c.assume(a < 0); c.assume(x[0] <= xv); c.assume(xv <= x[2])
            for t in y: c.assume(t <= yv)
            ver.append((list(x), list(y), xv, yv))
        return np.array([a, b, d])
    c.hook('polyfit', f)
def D_(c, b):
    return b if isinstance(b, bool) else c.prover.decide(b) is True

def maxfun(c, n, even, ties=True):
    h = c.pos('h', .1, 1)
    x = c.real('x0'); xs = [x]
    for k in range(n-1):
        x = x+(h if even else c.pos(f'h{k}', .1, 1)); xs.append(x)
    ys = [c.real(f'y{k}', nonneg=True, hi=3) for k in range(n)]
    if not ties:
        for k in range(n-1): c.assume(ys[k] != ys[k+1])
    ver = []
    if n > 3: use_lemma(c, ver)
    r = c.mod('maxfun').maxfun(c.np.array(xs), c.np.array(ys))
    X, Y = r
    vs = [v[2:] for v in ver] if c.symbolic and n > 3 else vertices(c, xs, ys)
    if c.symbolic:       # only parabolas through neighbouring samples
        for v in ver: c.true('neighbours', any(all(a is b for a, b in zip(v[0]+v[1], xs[k:k+3]+ys[k:k+3])) for k in range(n-2)))
    hit = [k for k in range(n) if close(c, Y, ys[k]) and close(c, X, xs[k])]+[v for v in vs if close(c, Y, v[1]) and close(c, X, v[0])]
    c.true('a sample or a vertex', bool(hit))
    if any(close(c, Y, ys[k]) for k in range(n)):
        for k in range(n): c.le(f'>= y', ys[k], Y)
    else:
        # the vertex chosen: at least every endpoint, other vertex (branch conditions) and, by y_v - y = -a (x-x_v)^2, the three samples
        for k in range(n): c.le(f'>= y', ys[k], Y)

def anylength(c):
    """maxfun for a profile of any length: its loop over the peaks is cut by an invariant"""
    if not c.symbolic: return sampled(c, 12)
    from vc import openseq as q
    from vc.term import SBool, Unsupported
    def el(name):
        return lambda j: c.real(f'{name}[{j.base}{j.off:+d}]', nonneg=name == 'y', hi=3)
    xs, ys = q.Seq(el('x')), q.Seq(el('y'))
    ver, hv = [], []
    use_lemma(c, ver)
    y0, yn = ys[0], ys[-1]
    def neighbours(v):
        n = [t.args[0] for t in v[0]+v[1]]
        return any(n == [f'x[j{k+i:+d}]' for i in range(3)]+[f'y[j{k+i:+d}]' for i in range(3)] for k in range(-3, 4))
    def member(X, Y):
        """a sample, a vertex, or a value the invariant holds for"""
        if any(X is a and Y is b for a, b in hv): return True
        if X.op == Y.op == 'sym' and X.args[0][:2] == 'x[' and Y.args[0] == 'y'+X.args[0][1:]: return True
        return any(close(c, X, v[2]) and close(c, Y, v[3]) and neighbours(v) for v in ver)
    def good(lab, X, Y):
        c.le(lab+' >= first', y0, Y); c.le(lab+' >= last', yn, Y); c.true(lab+' a sample or a vertex', member(X, Y))
    names = set(); seen = []
    def pairs(L): return {v: L[v] for v in L if isinstance(L[v], (list, tuple)) and len(L[v]) == 2 and all(hasattr(x, 'op') for x in L[v])}
    def spec(kind, *a):
        if kind == 'entry':
            E, L = a
            if E.d != -2: raise Unsupported('domain of the peaks')
            seen.append(E); names.clear(); names.update(pairs(L))
            for v, (X, Y) in pairs(L).items(): good('entry', X, Y)
            if not names: raise Unsupported('no running maximum')
        elif kind == 'choose':
            return bool(c.real('where') < 0)
        elif kind == 'havoc':
            v, exit = a
            if v not in names: return q.Opaque()
            k = len(hv); X, Y = c.real(f'X{k}'), c.real(f'Y{k}', nonneg=True, hi=9)
            hv.append((X, Y)); c.assume(y0 <= Y); c.assume(yn <= Y)
            if exit:
                # the first of the largest samples, not at an end
                ym, yk, yp = (el('y')(q.Ix('k', i)) for i in (-1, 0, 1))
                if bool(c.real('inside') < 0):
                    c.assume(ym < yk); c.assume(yp <= yk)
                    inset = bool(seen[-1].pred(q.Ix('k', -1)))
                    c.true('the largest sample is among the peaks', inset)
                    c.assume(yk <= Y)          # the invariant, for this element of the set
                    top.append(yk)
                else: top.append(None)
            return (X, Y)
        elif kind == 'step':
            E, L = a
            P = {v: L[v] for v in names if v in L}
            c.true('kept', len(P) == len(hv))
            for (v, (X, Y)), h in zip(sorted(P.items()), hv):
                good('step', X, Y); c.le('step: not smaller', h[1], Y); c.le('step: >= peak', el('y')(q.Ix('j', 1)), Y)
    top = []
    f, _ = q.cut(c, 'maxfun', 'maxfun', spec)
    try: r = f(xs, ys)
    except q.EndPath: return
    if not seen: raise Unsupported('the loop is not over the peaks')
    X, Y = r
    good('result', X, Y)
    for t in top:
        if t is not None: c.le('result >= largest sample', t, Y)

def sampled(c, n):
    """long random profiles"""
    for t in range(20):
        xs = [0.]; 
        for k in range(n-1): xs.append(xs[-1]+c.real(f's{t}h{k}', pos=True, lo=.2, hi=1.))
        ys = [round(c.real(f's{t}y{k}', nonneg=True, hi=3), 1 if t % 2 else 8) for k in range(n)]
        X, Y = c.mod('maxfun').maxfun(c.np.array(xs), c.np.array(ys))
        c.true('member', any(close(c, Y, y) and close(c, X, x) for x, y in zip(xs, ys)) or any(close(c, Y, v[1]) and close(c, X, v[0]) for v in vertices(c, xs, ys)))
        for y in ys: c.le('>=', y, Y)

def spec(c):
    """the contract of maxfun, for its callers"""
    c.maxs = []
    def f(xs, ys):
        k = len(c.maxs)
        x, y = c.real(f'mx{k}', nonneg=True), c.real(f'my{k}', nonneg=True, hi=9)
        for v in ys: c.assume(v <= y)
        c.maxs.append((list(xs), list(ys), x, y))
        return x, y
    for m in ('rfTRL', 'rfTRL_v4', 'maxfun'): c.contract(m, 'maxfun', f)

def is_max(c, label, tmax, vals, profiles):
    """tmax >= all magnitudes and one of them, or a vertex / contract value"""
    for v in vals: c.le(label+' >= node', v, tmax)
    for xs, ys in profiles:
        for v in ys: c.le(label+' >= profile', v, tmax)
    cand = list(vals)+[y for xs, ys in profiles for y in ys]
    if c.symbolic: cand += [m[3] for m in c.maxs]
    else: cand += [v[1] for xs, ys in profiles for v in vertices(c, xs, ys)]
    c.true(label+' reached', any(close(c, tmax, v) for v in cand))

def line(c, pts, Zr, give):
    spec(c)
    o, law = ci.line(c, 'T', pts)
    f = c.pos('f', .3, 1.)*1e8
    a1, a2 = c.cplx('a1'), c.cplx('a2')
    Z = c.pos('Zq', 5, 60) if Zr else o.Zbase
    Sm = o.getS(f, Zbase=Z)
    b1 = Sm[0, 0]*a1+Sm[0, 1]*a2
    V1, I1 = a1+b1, (a1-b1)/Z
    t, where, (xs, U) = o.maxV(f, {'1': a1, '2': a2}, *((Z,) if Zr else ()), **({'ID': 'x'} if give else {}))
    c.true('points', len(xs) == pts and len(U) == pts)
    for k in range(pts):
        c.eq('x', xs[k], law.L*k/(pts-1), scale=[law.L])
        ch, sh, Zl = law(f, xs[k])
        c.eq('|V(x)|', U[k], c.np.abs(ch*V1-Zl*sh*I1), scale=[c.np.abs(V1)])
    is_max(c, 'line', t, [], [(list(xs), list(U))])

def line_twice(c):
    """another excitation, another impedance, the same ones again"""
    spec(c)
    o, law = ci.line(c, 'T', 3)
    f = c.pos('f', .3, 1.)*1e8
    A = [(c.cplx(f'a{k}'), c.cplx(f'b{k}')) for k in range(2)]
    Zs = [c.pos('Zq', 5, 60), c.pos('Zq2', 5, 60)]
    for k, z in ((0, 0), (1, 0), (0, 1), (0, 0), (1, 1)):
        t, _, (xs, U) = o.maxV(f, {'1': A[k][0], '2': A[k][1]}, Zs[z])
        Sm = o.getS(f, Zbase=Zs[z])
        b1 = Sm[0, 0]*A[k][0]+Sm[0, 1]*A[k][1]
        V1, I1 = A[k][0]+b1, (A[k][0]-b1)/Zs[z]
        for i in range(3):
            ch, sh, Zl = law(f, law.L*i/2)
            c.eq('|V(x)|', U[i], c.np.abs(ch*V1-Zl*sh*I1), scale=[c.np.abs(V1)])
        is_max(c, 'line', t, [], [(list(xs), list(U))])

def table(c, n, Zr, give, xpos):
    c.maxs = []
    b, Sm, Zb = ci.tab(c, 'B', n, c.pos('Zb', 5, 60), Id='tabl')
    E = {p: c.cplx('a'+p) for p in b.ports if p in give}
    Z = c.pos('Zq', 5, 60) if Zr else Zb
    kw = {'Zbase': Z} if Zr else {}
    if xpos == 'list': kw['xpos'] = [c.real(f'x{k}') for k in range(n)]
    elif xpos: kw['xpos'] = c.real('x')
    R = b.getS(ci.F, Zbase=Z)
    t, where, V = b.maxV(ci.F, dict(E), **kw)
    c.eq('keys', list(V), ['tabl'])
    V = V['tabl']
    c.eq('ports', sorted(V), sorted(b.ports))
    for i, p in enumerate(b.ports):
        v = E.get(p, 0)
        for j, q in enumerate(b.ports): v = v+R[i, j]*E.get(q, 0)
        c.eq('|V|', V[p], c.np.abs(v))
    is_max(c, 'table', t, list(V.values()), [])
    c.true('where', where in V); 
    if where in V: c.eq('there', V[where], t)

def table_reject(c):
    b, Sm, Zb = ci.tab(c, 'B', 2)
    c.raises('unknown port', lambda: b.maxV(ci.F, {'a': 1., 'zz': 0.}), ValueError)
    c.raises('unknown port', lambda: b.maxV(ci.F, {'zz': c.cplx('a')}), ValueError)
    o = c.rf.rfCircuit(); o.addblock('B', b); 
    ex, _ = c.call(lambda: o.maxV(ci.F, {'B.a': 1.}))
    c.true('circuit ports are required', ex is not None)

def obj(c, n, Zr):
    """a frequency table at one of its frequencies"""
    c.maxs = []
    Sm = c.cmat('S', n); Zb = c.pos('Zb', 5, 60)
    o = c.rf.rfObject(ports=ci.pnames(n), Zbase=Zb)
    o.setS(ci.F, Sm)
    Z = c.pos('Zq', 5, 60) if Zr else Zb
    E = {p: c.cplx('a'+p) for p in o.ports}
    R = o.getS(ci.F, Zbase=Z)
    t, where, V = o.maxV(ci.F, dict(E), Zbase=Z)
    vals = []
    for i, p in enumerate(o.ports):
        v = E[p]
        for j, q in enumerate(o.ports): v = v+R[i, j]*E[q]
        vals.append(c.np.abs(v))
    is_max(c, 'object', t, vals, [])
    c.eq('profile', V[1], [t])

def unit(c, n, u, m, deep):
    """a table whose frequencies are in another unit, in a circuit (whose frequencies are in Hz)"""
    spec(c)
    s = {'Hz': 1., 'kHz': 1e3, 'MHz': 1e6, 'GHz': 1e9}[u]
    Zb, Zc = c.pos('Zb', 5, 60), c.pos('Zc', 5, 60)
    o = c.rf.rfObject(ports=ci.pnames(n), Zbase=Zb, funit=u, interp='RI', interpkws={'kind': 1})
    Ms = [c.cmat(f'S{k}_', n) for k in range(m)]
    for k in reversed(range(m)): o.setS(ci.F*(1+k)/s, Ms[k])
    C = c.rf.rfCircuit(Zbase=Zc, Id='C'); C.addblock('T', o)
    if deep:
        D = C; C = c.rf.rfCircuit(Zbase=Zc, Id='D'); C.addblock('C', D)
    E = {p: c.cplx('a'+p) for p in C.ports}
    k = m-1
    f = ci.F*(1+k)
    R = C.getS(f)
    t, where, V = C.maxV(f, dict(E))
    c.eq('the table', R, reref(c, Ms[k], Zb, Zc))
    a = [E[p] for p in C.ports]
    vs = []
    for i in range(n):
        v = a[i]
        for j in range(n): v = v+R[i, j]*a[j]
        vs.append(c.np.abs(v))
    d = V['D']['C'] if deep else V['C']
    for i, p in enumerate(ci.pnames(n)): c.eq('|V| node', d['T.'+p][1][0], vs[i])
    for v in vs: c.le('>= |V| of the table', v, d['T'][1][0])
    c.true('|V| of the table reached', any(close(c, d['T'][1][0], v) for v in vs))
    is_max(c, 'circuit', t, vs, [])

def reref(c, M, Z0, Z1):
    r = (Z1-Z0)/(Z1+Z0); n = len(M)
    return (M-r*c.eye(n)) @ c.inv(c.eye(n)-r*M)

def rlc(c, Zr):
    c.maxs = []
    el = dict(Rs=c.pos('Rs'), Ls=c.pos('Ls')*1e-7, Cp=c.pos('Cp')*1e-10)
    Zb = c.pos('Zb', 5, 60)
    o = c.rf.rfRLC(Zbase=Zb, **el)
    Z = c.pos('Zq', 5, 60) if Zr else Zb
    R = o.getS(ci.F, Zbase=Z)
    a = [c.cplx('a0'), c.cplx('a1')]
    t, where, (x, V) = o.maxV(ci.F, dict(zip(o.ports, a)), *((Z,) if Zr else ()))
    for i in range(2): c.eq('|V|', V[i], c.np.abs(a[i]+R[i, 0]*a[0]+R[i, 1]*a[1]))
    is_max(c, 'rlc', t, list(V), [])

def profile_dict(c, d, net, x, names, vals, profs, lab):
    """every magnitude reported at this level and below"""
    c.true('a dictionary', isinstance(d, dict))
    want = [p for p in net.ports if '/' not in p]
    for p in want:
        q = names[p] if names else p
        c.true('node '+lab, p in d)
        if p in d:
            g = d[p][1][0]
            c.eq('|V| node', g, c.np.abs(x[('V', q)]), scale=[c.np.abs(x[('V', q)])]); vals.append(g)
    for nm, (law, p1) in net.lines.items():
        q = names[p1] if names else p1
        xs, U = d[nm]
        V1, I1 = x[('V', q)], x[('I', q)]
        c.true('points', len(U) == law.n)
        for k in range(law.n):
            ch, sh, Zl = law(ci.F, law.L*k/(law.n-1))
            c.eq('|V| line', U[k], c.np.abs(ch*V1-Zl*sh*I1), scale=[c.np.abs(V1)])
        profs.append((list(xs), list(U)))
    for nm, ps in net.tables.items():
        for (p, full) in ps:
            q = names[full] if names else full
            g = d[nm][p]
            c.eq('|V| table', g, c.np.abs(x[('V', q)]), scale=[c.np.abs(x[('V', q)])]); vals.append(g)
    for nm, ps in net.rlcs.items():
        for k, full in enumerate(ps):
            q = names[full] if names else full
            c.eq('|V| rlc', d[nm][1][k], c.np.abs(x[('V', q)]), scale=[c.np.abs(x[('V', q)])]); vals.append(d[nm][1][k])
    for nm, (n2, m) in net.sub_.items():
        m2 = {p: (names[q] if names else q) for p, q in m.items()}
        profile_dict(c, d[nm], n2, x, m2, vals, profs, 'nested')

def circuit(c, pr, Zr, give):
    spec(c)
    o, net, free = ci.build(c, pr, generic=True)
    Z = c.pos('Zreq', 5, 60) if Zr else net.Zb
    if Zr: c.assume(Z != net.Zb)
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    t, where, V = o.maxV(ci.F, dict(E), **({'Zbase': Z} if Zr else {}), **({'Id': 'top'} if give else {}))
    c.eq('keys', list(V), ['top' if give else o.Id])
    x = net.solve(free, E, Z)
    vals, profs = [], []
    profile_dict(c, V[list(V)[0]], net, x, None, vals, profs, '')
    is_max(c, 'circuit', t, vals, profs)

def after(c, pr):
    """after other requests"""
    spec(c)
    o, net, free = ci.build(c, pr, generic=True)
    Z = c.pos('Zreq', 5, 60); Z2 = c.pos('Zreq2', 5, 60)
    c.assume(Z != net.Zb); c.assume(Z2 != net.Zb); c.assume(Z != Z2)
    E = {p: c.cplx(f'a{k}') for k, p in enumerate(free)}
    E2 = {p: c.cplx(f'b{k}') for k, p in enumerate(free)}
    o.maxV(ci.F, dict(E2), Z2)
    o.Solution(ci.F, dict(E2), Z)
    t, where, V = o.maxV(ci.F, dict(E), Z)
    x = net.solve(free, E, Z)
    vals, profs = [], []
    profile_dict(c, V[list(V)[0]], net, x, None, vals, profs, '')
    is_max(c, 'circuit', t, vals, profs)

def scaled(c, kind, depth):
    """scaleVSW multiplies every voltage of a report, whatever objects are in the circuit, and changes nothing else; strVSW prints all of them"""
    spec(c); rf = c.rf
    B = {'object': lambda: ci.tab(c, 'B', 2)[0], 'base': lambda: rf.rfBase(Ss=[c.cmat('B', 2)], fs=[ci.F], ports=['a', 'b']), 'rlc': lambda: rf.rfRLC(Rs=c.pos('Rs'), ports=['a', 'b']), 'array': lambda: c.cmat('B', 2),
         'line': lambda: rf.rfTRL(L=1.5, Z0TL=c.pos('Z', 10, 90), ports=['a', 'b'], dx=-2.)}[kind]
    def mk():
        o = rf.rfCircuit(Id='C'); o.addblock('B', B(), **({'ports': ['a', 'b']} if kind == 'array' else {})); o.terminate('B.b', Z=c.pos('Zt', 5, 60))
        for k in range(depth): q = rf.rfCircuit(Id=f'D{k}'); q.addblock('E', o); o = q
        return o
    o = mk(); E = {'E.'*depth+'B.a': c.cplx('a')}
    with c.onepath(): a, b = o.maxV(ci.F, dict(E))[2], mk().maxV(ci.F, dict(E))[2]
    k = c.pos('scale', .1, 9)
    if c.symbolic: k = 2.5
    else:
        t = c.rf.strVSW(a); c.true('printed', '!' not in t and len(t) > 0)
    c.true('in place', c.rf.scaleVSW(a, k) is None)
    def same(u, v):
        c.eq('names', sorted(u), sorted(v))
        for n in u:
            if isinstance(u[n], dict): same(u[n], v[n])
            elif isinstance(u[n], (tuple, list)):
                c.eq('positions', list(u[n][0]), list(v[n][0]), scale=[1.]); c.eq('scaled', list(u[n][1]), [k*x for x in v[n][1]])
            else: c.eq('scaled', u[n], k*v[n])
    same(a, b)
    with c.onepath(): same(a, o.maxV(ci.F, dict(E))[2])

def measured(c, depth, hist, last=None):
    """a model that also has measured data: the voltages inside it are those of the model, at the frequency requested, whatever was asked before"""
    from .c21 import write
    rf = c.rf; spec(c)
    X, Y = c.cmat('X', 2), c.cmat('Y', 2); Zl, Z0 = c.pos('Zl', 10, 90), c.pos('Zb', 5, 60)
    f2 = 2*ci.F
    num = lambda x: f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        t = '! m\n# HZ S RI R '+num(Z0)+'\n'+'\n'.join(' '.join([num(f)]+[num(v) for z in M.T.flat for v in (c.np.real(z), c.np.imag(z))]) for f, M in ((ci.F, X), (f2, Y)))+'\n'
    with open('d15.s2p', 'w') as g: g.write(t)
    M = lambda: {'Portnames': ['out', 'in'], 'GTL': {'A': {'Portnames': ['in', 'm'], 'Z0TL': Zl, 'L': 1.3, 'dx': -2.}, 'B': {'Portnames': ['m', 'out'], 'Z0TL': 30., 'L': .4, 'dx': -2.}}}
    if last is not None: M = lambda: {'Portnames': ['out', 'in'], 'GTL': {'A': {'Portnames': ['in', 'out'], 'Z0TL': Zl, 'L': 1.3, 'dx': -2.}}}
    name = write(c, {'M': dict(M(), sNp='d15.s2p'), 'N': M()}, 'c15.mod')
    def mk(k):
        o = rf.rfGTL(name, objkey=k, Zbase=Z0, Id='G')
        for k in range(depth):
            q = rf.rfCircuit(Id=f'C{k}', Zbase=Z0); q.addblock('B', o, relpos=k); o = q
        return o
    o = mk('M')
    E = {p: c.cplx('a'+p[-2:]) for p in ('G'*0+'B.'*depth+'in', 'B.'*depth+'out')}
    for h, f in hist:
        if h == 'S': o.getS(f2 if f else ci.F, flags={'sNp': False})
        elif h == 'D': c.eq('measured', o.getS(f2 if f else ci.F), Y if f else X)
        else: o.maxV(f2 if f else ci.F, dict(E))
    for F in (ci.F, f2) if last is None else ((ci.F, f2)[last],):
        y = mk('N')
        for fl in ({}, {'sNp': False}) if last is None else ({'sNp': False} if depth else {},):
            if depth and not fl: continue        # the waves at the ports of the block are then those of the measured data
            a, b = o.maxV(F, dict(E), flags=fl), y.maxV(F, dict(E))
            def same(u, v, lab):
                c.eq('names '+lab, sorted(u), sorted(v))
                for k in u:
                    if isinstance(u[k], dict): same(u[k], v[k], lab+k)
                    else:
                        c.eq('positions', list(u[k][0]), list(v[k][0])); c.eq('|V|', list(u[k][1]), list(v[k][1]))
            same(a[2], b[2], '')

def has(pr, kind): return any(k == kind or k == 'circ' and has(a, kind) for _, k, a in pr.blocks)

def scenarios(tier):
    q = tier == 'quick'
    L = []
    L.append(S('parabola', lemma, target='numpy.polyfit', conc=30, bounded=False))
    for n in range(1, 6 if q else 8):
        for even in (True, False):
            L.append(S(f'maxfun {n} {"even" if even else "uneven"}', maxfun, dict(n=n, even=even, ties=not q or n < 4), target='maxfun', maxpaths=6000, tl=120 if q else 800, conc=30))
    L.append(S('maxfun any number of samples', anylength, target='maxfun', maxpaths=400, tl=120, conc=0, bounded=False, soft=True))
    for n in (5, 9, 30): L.append(S(f'maxfun sampled {n}', sampled, dict(n=n), target='maxfun', sym=False, conc=10))
    for pts in (2, 3, 4):
        for Zr in (False, True): L.append(S(f'line {pts} {Zr}', line, dict(pts=pts, Zr=Zr, give=pts == 3), target='rfTRL.maxV,rfTRL.VISWs,rfTRL.solveVI'))
    L.append(S('line again', line_twice, target='rfTRL.VISWs'))
    for n in (1, 2, 3, 4):
        for Zr in (False, True):
            for give in {'a', 'abcd'[:n], 'bcd'[:n-1]}:
                for xp in (None, 'num', 'list'):
                    if xp and Zr: continue
                    L.append(S(f'table {n} {Zr} {give or "none"} {xp}', table, dict(n=n, Zr=Zr, give=give, xpos=xp), target='rfBase.maxV', conc=2, maxpaths=64))
            L.append(S(f'object {n} {Zr}', obj, dict(n=n, Zr=Zr), target='rfObject.maxV', maxpaths=64))
    for n in (1, 2):
        for u in ('MHz', 'Hz', 'GHz'):
            for m in (1, 2, 3):
                for deep in (0, 1): L.append(S(f'unit {n} {u} {m} {deep}', unit, dict(n=n, u=u, m=m, deep=deep), target='rfCircuit.maxV,rfObject.maxV', maxpaths=64))
    L.append(S('table reject', table_reject, target='rfBase.maxV,rfCircuit.maxV'))
    for Zr in (False, True): L.append(S(f'rlc {Zr}', rlc, dict(Zr=Zr), target='rfRLC.maxV'))
    T = 'rfCircuit.maxV,rfCircuit.getpos,rfBase.maxV,rfTRL.maxV,rfRLC.maxV'
    for k in ('object', 'base', 'rlc', 'array', 'line'):
        for d in (0, 1): L.append(S(f'scaled {k} {d}', scaled, dict(kind=k, depth=d), target='scaleVSW,strVSW,rfCircuit.maxV', conc=2))
    for i, h in enumerate(('', 'S1', 'S0 D1', 'D0', 'V1', 'V0 S1 D0', 'D0 D1 V1')):
        for d in (0, 1):
            hist = [(x[0], int(x[1])) for x in h.split()]
            L.append(S(f'measured {h or "new"} {d}', measured, dict(depth=d, hist=hist), target='rfCircuit.maxV,rfGTL.getS,rfGTL.getSgtl', conc=2, sym=False))
            if 'V' not in h: L.append(S(f'measured {h or "new"} {d} then', measured, dict(depth=d, hist=hist, last=i % 2), target='rfCircuit.maxV,rfGTL.getS,rfGTL.getSgtl', conc=0, maxpaths=120, tl=30))
    for i, pr in enumerate(ci.programs('c15', 40 if q else 300, maxp=9, kinds=('tab', 'tabZ', 'arr', 'rlc', 'trl', 'trl'))):
        sy = ci.nports(pr) <= (5 if q else 6)
        L.append(S(f'circuit {i}', circuit, dict(pr=pr, Zr=i % 3 > 0, give=i % 2), target=T, sym=sy, conc=4, maxpaths=80, tl=40 if q else 200))
        if i % 2 == 0: L.append(S(f'after {i}', after, dict(pr=pr), target=T, sym=sy and not has(pr, 'trl'), conc=3, maxpaths=80, tl=40 if q else 200))
    # beyond the proved sizes: concrete only
    for i, pr in enumerate(ci.bigs('c15', 25 if q else 200)):
        L.append(S(f'large circuit {i}', circuit, dict(pr=pr, Zr=i % 3 > 0, give=i % 2), target=T, sym=False, conc=1))
        if i % 3 == 0: L.append(S(f'large after {i}', after, dict(pr=pr), target=T, sym=False, conc=1))
    for pts in (7, 20, 101): L.append(S(f'large line {pts}', line, dict(pts=pts, Zr=pts % 2 == 0, give=False), target='rfTRL.maxV', sym=False, conc=3))
    return L
