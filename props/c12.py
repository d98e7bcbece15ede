"""C12 touchstone files"""
import itertools, os, random
from vc.api import S
from .c11 import reref
LEVEL = 'other'
BOUNDS = ('objects of up to 6 (thorough 9) ports and up to 3 frequencies; every combination of unit, number format and parameter type, tables kept in each unit; all matrices, frequencies, '
          'reference impedances symbolic; HFSS files of up to 4 ports and 3 frequencies (proved up to 2 ports)'
          '; concrete runs only (bounded, not proved): objects of up to 12 ports and 12 frequencies')
EXPLANATION = ('Written text is read back by ReadTSF and rfObject and, independently, by a strict touchstone version 1 reader in this file; text made by a strict writer is '
               'read by ReadTSF. Symbolically a number is printed as a token that reads back as that number (printing assumed exact); the precision printed and the '
               'layout of real digits are covered by the concrete samples.')
TRUSTED = ['printing and reading of decimal numbers', 'file system']
TW, TR = 'WriteTSF', 'ReadTSF,getlines'
U = {'HZ': 1., 'KHZ': 1e3, 'MHZ': 1e6, 'GHZ': 1e9}
NAMES = ['in', 'out', 'P 3', 'a.b', 'x-1', 'sink', 'g', 'h', 'i', 'j', '10', '9', 'Q', 'a1', 'zz']
TOL = 2e-5

def z2s(c, Z, Z0, n): return (Z-Z0*c.eye(n)) @ c.inv(Z+Z0*c.eye(n))
def y2s(c, Y, Z0, n): return (c.eye(n)-Z0*Y) @ c.inv(c.eye(n)+Z0*Y)
def s2z(c, X, Z0, n): return Z0*(c.eye(n)+X) @ c.inv(c.eye(n)-X)
def s2y(c, X, Z0, n): return c.inv(c.eye(n)+X) @ (c.eye(n)-X)/Z0

def pair(c, z, fmt):
    np = c.np
    if fmt == 'RI': return np.real(z), np.imag(z)
    if fmt == 'MA': return np.abs(z), np.angle(z, deg=True)
    return 20*np.log10(np.abs(z)), np.angle(z, deg=True)
def unpair(c, a, b, fmt):
    np = c.np
    if fmt == 'RI': return a+1j*b
    if fmt == 'MA': return a*np.exp(1j*b*c.pi/180)
    return np.exp(a/20*np.log(10))*np.exp(1j*b*c.pi/180)

def parse(c, text):
    """strict touchstone v1: (option words, frequencies as written, n, rows of pairs); !PORTS names"""
    opts, nums, first, names = None, [], [], None
    for line in text.split('\n'):
        t = line.strip()
        if t.startswith('!PORTS'): names = [x.strip() for x in t[6:].split(',')]
        t = t.split('!')[0].strip()
        if not t: continue
        if t[0] == '#':
            assert opts is None, 'two option lines'
            opts = t[1:].upper().split(); continue
        assert opts is not None, 'data before the option line'
        w = [c.parse(x) for x in t.split()]
        nums.append(w)
    # an odd number of values starts a frequency
    recs = []
    for w in nums:
        if len(w) % 2: recs.append(list(w))
        else: recs[-1] += w
    for w in nums: assert len(w) <= 9, 'too many on a line'
    n = round(((len(recs[0])-1)/2)**.5)
    assert all(len(r) == 1+2*n*n for r in recs), 'wrong count'
    return opts, [r[0] for r in recs], n, [[(r[1+2*k], r[2+2*k]) for k in range(n*n)] for r in recs], names

def options(c, opts):
    unit, typ, fmt, R = 'GHZ', 'S', 'MA', 50.
    i = 0
    while i < len(opts):
        if opts[i] in U: unit = opts[i]
        elif opts[i] in 'SYZ': typ = opts[i]
        elif opts[i] in ('RI', 'MA', 'DB'): fmt = opts[i]
        elif opts[i] == 'R': R = c.parse(opts[i+1]); i += 1
        else: raise AssertionError(opts[i])
        i += 1
    return unit, typ, fmt, R

def decode(c, text, Zr):
    """frequencies [Hz] and S at Zr of a file"""
    opts, fs, n, rows, names = parse(c, text)
    unit, typ, fmt, R = options(c, opts)
    Ss = []
    for r in rows:
        X = c.np.array([unpair(c, a, b, fmt) for a, b in r], dtype=complex).reshape((n, n))
        if n == 2: X = X.T
        Ss.append(reref(c, X, R, Zr) if typ == 'S' else z2s(c, X, Zr, n) if typ == 'Z' else y2s(c, X, Zr, n))
    return [f*U[unit] for f in fs], Ss, names

def data(c, n, m, fmt='RI', zero=False):
    fs, f = [], 0
    for i in range(m):
        d = c.pos(f'df{i}', 3, 30)
        if not c.symbolic: d = round(d*10)/10        # representable in every format
        f = f+d; fs.append(f*1e6)
    Ss = []
    for i in range(m):
        # away from the singular matrices of Z and Y
        X = c.cmat(f'S{i}_', n)
        if not c.symbolic: X = X*.6/n**.5
        if zero: X[0, n-1] = 0
        if fmt != 'RI' and c.symbolic:
            for t in X.flat:
                if not (isinstance(t, int) and t == 0): c.assume(t != 0)
        Ss.append(X)
    return fs, Ss

def obj(c, kind, n, fs, Ss, Z):
    np = c.np
    if kind == 'base': return c.rf.rfBase(Ss=Ss, fs=fs, ports=NAMES[:n], Zbase=Z)
    u = kind[5:].strip()         # a table in another unit
    o = c.rf.rfObject(ports=NAMES[:n], Zbase=Z, **({'funit': u} if u else {}))
    for f, X in zip(fs, Ss): o.setS(own(c, o, f), X)
    return o

def own(c, o, f):
    """in the unit of the object"""
    u = U[getattr(o, 'funit', 'Hz').upper()]
    if u == 1: return f
    if c.symbolic: return f/u
    from fractions import Fraction
    return float(Fraction(str(f))/Fraction(int(u)))

def write(c, writer, o, line, fs=None, path='w%d' % os.getpid()):
    """text of the file"""
    with c.printing():
        if writer == 'WriteTSF':
            r = c.mod('WriteTSF').WriteTSF(o, tsf_format=line, **({} if fs is None else {'fs': fs}))
        elif writer == 'WriteTSF file':
            c.mod('WriteTSF').WriteTSF(o, path, tsf_format=line, comments='one\ntwo # R', **({} if fs is None else {'fs': fs}))
            with open(path) as f: r = f.read()
            os.unlink(path)
        elif writer == 'tsf2str': r = o.tsf2str(tfmt='# '+line, comments='', **({} if fs is None else {'fs': fs}))
        else:
            o.write_tsf(path, tfmt='# '+line, comments=['a', 'b'], **({} if fs is None else {'fs': fs}))
            fn = f'{path}.s{len(o)}p'
            with open(fn) as f: r = f.read()
            os.unlink(fn)
    return r

def read(c, text, src, path='r%d' % os.getpid(), **kw):
    R = c.mod('ReadTSF').ReadTSF
    if src == 'str': return R(text, **kw)
    with open(path, 'w') as f: f.write(text)
    try:
        if src == 'path': return R(path, **kw)
        with open(path) as f: return R(f, **kw)
    finally: os.unlink(path)

def rt(c, writer, kind, n, m, unit, typ, fmt, ref, rd, src, zero=False, sub=False):
    """write, read back"""
    fs, Ss = data(c, n, m, fmt, zero)
    Z = c.pos('Z', 10, 80)
    o = obj(c, kind, n, fs, Ss, Z)
    R = c.pos('R', 20, 70)
    with c.printing(): line = ' '.join([x for x in (unit, typ, fmt) if x]+([f'R {R}'] if ref else []))
    sel = slice(None)
    if sub: sel = slice(None, None, -1)
    wf = [own(c, o, f) for f in fs[sel]] if sub else None
    t = write(c, writer, o, line, wf)
    eZ = c.pos('Zr', 10, 80) if rd else 50.
    E = [reref(c, X, Z, eZ) for X in Ss][sel]
    tol = TOL*n
    f2, S2, names = decode(c, t, eZ)
    c.eq('standard: frequencies', f2, fs[sel], 1e-7); c.eq('standard: S', c.np.array(S2), c.np.array(E), tol, tol)
    c.true('standard: ports', names == NAMES[:n])
    kw = {} if not rd else {'Zbase': eZ}
    r = read(c, t, src, **kw)
    # Z and Y data are read at the file's own reference impedance when none is asked for
    if not rd and ref and typ in ('Z', 'Y'): E0, E = E, [reref(c, X, Z, R) for X in Ss][sel]
    c.true('ports', list(r['ports']) == NAMES[:n])
    c.eq('frequencies', r['fs'], [f/1e9 for f in fs][sel], 1e-7); c.eq('S', r['Ss'], c.np.array(E), tol, tol)
    if not rd and ref and typ in ('Z', 'Y'): E = E0
    r = read(c, t, 'str', funit='kHz', **kw)
    c.eq('frequencies kHz', r['fs'], [f/1e3 for f in fs][sel], 1e-7)
    path = 't%d' % os.getpid()
    with open(path, 'w') as g: g.write(t)
    try: p = c.rf.rfObject(touchstone=path, **kw)
    finally: os.unlink(path)
    c.true('object ports', list(p.ports) == NAMES[:n] and len(p) == n); c.eq('object reference', p.Zbase, eZ)
    c.eq('object frequencies', p.fs, fs[sel], 1e-7)
    for f, X in zip(p.fs, E): c.eq('object S', p.getS(f), X, tol, tol)
    c.eq('back', p.getS(p.fs[0], Zbase=Z), Ss[sel][0], tol, tol)

def reading(c, n, m, opts, src, rd, comments, names, wrap, funit):
    """files as the standard has them"""
    fs, Ss = data(c, n, m)
    R = c.pos('R', 20, 70)
    unit, typ, fmt, ref = 'GHZ', 'S', 'MA', 50.
    for w in opts:
        if w.upper() in U: unit = w.upper()
        elif w.upper() in 'SYZ': typ = w.upper()
        elif w.upper() in ('RI', 'MA', 'DB'): fmt = w.upper()
        else: ref = R
    if c.symbolic and fmt != 'RI':
        for X in Ss:
            for t in X.flat: c.assume(t != 0)
    def num(x): return f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        L = ['! a comment'] if comments else []
        if names: L.append('!PORTS '+', '.join(NAMES[:n]))
        L += ['# '+' '.join(f'{w} {num(R)}' if w in 'rR' else w for w in opts)]
        for f, X in zip(fs, Ss):
            if n == 2: X = X.T
            if typ != 'S': X = X*50.
            row = [[num(v) for z in X[i] for v in pair(c, z, fmt)] for i in range(n)]
            if n <= 2: L.append(' '.join([num(f/U[unit])]+[w for r in row for w in r])+('  ! note' if comments else ''))
            else:
                for i, r in enumerate(row):
                    parts = [r[k:k+2*wrap] for k in range(0, len(r), 2*wrap)]
                    for j, q in enumerate(parts): L.append('\t'.join(([num(f/U[unit])] if i == j == 0 else [' '])+q)+(' ! row' if comments and j == 0 else ''))
            if comments: L += ['', '! between']
        text = '\n'.join(L)+('\n' if m > 1 or len(L) == 1 else '')
        if '\n' not in text: text += '\n'
    eZ = c.pos('Zr', 10, 80) if rd else 50.
    kw = {'Zbase': eZ} if rd else {}
    if funit: kw['funit'] = funit
    if typ != 'S' and not rd: eZ = ref
    E = [reref(c, X, ref, eZ) if typ == 'S' else z2s(c, X*50., eZ, n) if typ == 'Z' else y2s(c, X*50., eZ, n) for X in Ss]
    r = read(c, text, src, **kw)
    c.eq('frequencies', r['fs'], [f/U[(funit or 'GHz').upper()] for f in fs], 1e-9); c.eq('S', r['Ss'], c.np.array(E), 1e-7, 1e-7)
    c.true('ports', list(r['ports']) == (NAMES[:n] if names else [f'port-{k:03d}' for k in range(1, n+1)]))
    r = read(c, text, src, ports=[f'q{k}' for k in range(n)], **kw)
    c.true('own ports', list(r['ports']) == [f'q{k}' for k in range(n)])
    r = read(c, text, src, ports='r%d', **kw)
    c.true('own names', list(r['ports']) == [f'r{k}' for k in range(1, n+1)])
    c.raises('two option lines', lambda: read(c, text+'\n# MHZ S RI R 50\n', 'str'), ValueError)
    c.raises('option', lambda: read(c, text.replace('# ', '# Q ', 1), 'str'), ValueError)

def several(c, n, m, fmt, rd):
    """one reference impedance per port: power waves"""
    fs, Ss = data(c, n, m, fmt)
    R = [c.pos(f'R{k}', 20, 70) for k in range(n)]
    def num(x): return f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        L = ['# MHZ S %s R %s' % (fmt, ' '.join(num(x) for x in R))]
        for f, X in zip(fs, Ss):
            X = X.T if n == 2 else X
            L.append(' '.join([num(f/1e6)]+[num(v) for z in X.flat for v in pair(c, z, fmt)]))
        text = '\n'.join(L)+'\n'
    eZ = c.pos('Zr', 10, 80) if rd else 50.
    r = c.mod('ReadTSF').ReadTSF(text, **({'Zbase': eZ} if rd else {}))
    for i, X in enumerate(Ss):
        # V and I of unit power waves
        q = [c.np.sqrt(x) for x in R]
        I = c.eye(n)
        V = c.np.array([[q[j]*(I[j, k]+X[j, k]) for k in range(n)] for j in range(n)], dtype=complex)
        A = c.np.array([[(I[j, k]-X[j, k])/q[j] for k in range(n)] for j in range(n)], dtype=complex)
        c.eq(f'S{i}', r['Ss'][i] @ (V+eZ*A), V-eZ*A, 1e-6, 1e-7)

def hfss(c, n, m, fmt, R, full, wrap, cplx, how):
    """files of HFSS: the impedances of the ports in comments after the data of each frequency"""
    fs, Ss = data(c, n, m, fmt)
    r0 = c.pos('R', 20, 70)
    Zs = [[r0 if R == 'same' else c.pos(f'Z{i}', 20, 70) if R == 'alike' else c.pos(f'Z{i}_{k}', 20, 70)+(1j*c.real(f'X{i}_{k}')*5 if cplx else 0) for k in range(n)] for i in range(m)]
    Gs = [[1j*c.pos(f'G{i}_{k}', .1, .9) for k in range(n)] for i in range(m)]
    def num(x): return f'{x}' if c.symbolic else repr(float(x))
    with c.printing():
        L = ['! Touchstone file exported from HFSS 2022.2.0', '! Variables:', '!        r_diel = 210mm', '!', '# MHZ S %s' % fmt+(f' R {num(r0)}' if R else ''), '! Terminal data exported']
        for f, X, Z, G in zip(fs, Ss, Zs, Gs):
            X = X.T if n == 2 else X
            L.append(' '.join([num(f/1e6)]+[num(v) for z in X.flat for v in pair(c, z, fmt)]))
            for what, z in (('Gamma', G), ('Port Impedance', Z)):
                d = [z[i] if i == k else 0. for i in range(n) for k in range(n)] if full else z
                w = [f'{num(c.np.real(x))} {num(c.np.imag(x))}' for x in d]
                L += [f'! {what}   '+'   '.join(w[:wrap])]+['!   '+'  '.join(w[i:i+wrap]) for i in range(wrap, len(w), wrap)]
        text = '\n'.join(L)+'\n'
    eZ = c.pos('Zr', 10, 80)
    import warnings
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        if how == 'object':
            path = 'h%d' % os.getpid()
            with open(path, 'w') as g: g.write(text)
            try: o = c.rf.rfObject(touchstone=path, Zbase=eZ)
            finally: os.unlink(path)
            c.eq('frequencies', o.fs, fs, 1e-9)
            T, Zc, Gm = [o.getS(f) for f in o.fs], o.Zcs, o.Gms
        else:
            r = read(c, text, how, Zbase=eZ)
            c.eq('frequencies', r['fs'], [f/1e9 for f in fs], 1e-9)
            T, Zc, Gm = r['Ss'], r['Zc'], r['Gm']
    c.eq('port impedances', c.np.array(Zc), c.np.array(Zs)); c.eq('propagation constants', c.np.array(Gm), c.np.array(Gs))
    for i, X in enumerate(Ss):
        q = [c.np.sqrt(x) for x in Zs[i]]
        V = c.np.array([[q[j]*((j == k)+X[j, k]) for k in range(n)] for j in range(n)], dtype=complex)
        A = c.np.array([[((j == k)-X[j, k])/q[j] for k in range(n)] for j in range(n)], dtype=complex)
        c.eq(f'S{i}', T[i] @ (V+eZ*A), V-eZ*A, 1e-6, 1e-7)

def special(c, lines, want):
    """the special comments"""
    X = c.cmat('S', 1)
    with c.printing():
        num = (lambda x: f'{x}') if c.symbolic else (lambda x: repr(float(x)))
        text = '\n'.join(lines)+'\n# MHZ S RI R 50\n40 '+' '.join(num(v) for v in pair(c, X[0, 0], 'RI'))+'\n'
    r = read(c, text, 'str')
    c.eq('S', r['Ss'], [X])
    for k in ('shape', 'part', 'numbering', 'markers'):
        x = r[k]
        c.true(k, (None if x is None else list(x) if k == 'markers' else x) == want.get(k))

def objects(c, what, writer, fmt, ref):
    """the other rf objects"""
    w = [c.pos('f', 20, 60)*1e6]
    if not c.symbolic: w = [round(w[0]/1e5)*1e5]
    w.append(w[0]*2)
    Z = c.pos('Z', 10, 80); R = c.pos('R', 20, 70)
    if what == 'trl': o = c.rf.rfTRL(L=c.pos('L', .2, 2), Z0TL=c.pos('Z0', 20, 70), ports=['u', 'v'], Zbase=Z)
    elif what == 'rlc': o = c.rf.rfRLC(Rs=c.pos('Rs', 1, 20), Cp=c.pos('Cp', 1, 5)*1e-10, ports=['u', 'v'], Zbase=Z)
    elif what == 'arc': o = c.rf.rfArcObj(Larc=c.pos('La', 1, 5)*1e-8, ports=['u'], Zbase=Z)
    else:
        o = c.rf.rfCircuit(Zbase=Z)
        M = c.cmat('M', 3)
        if not c.symbolic: M = M*.4
        o.addblock('b', M, ports=['1', '2', '3']); o.terminate('b.2', RC=.25)
    ports = list(o.ports) if what != 'circ' else ['b.1', 'b.3']
    if what == 'circ': o.getS(w[0])
    with c.printing(): line = f'MHZ S {fmt}'+(f' R {R}' if ref else '')
    t = write(c, writer, o, line, w)
    for rd in (0, 1):
        eZ = c.pos('Zr', 10, 80) if rd else 50.
        r = c.mod('ReadTSF').ReadTSF(t, **({'Zbase': eZ} if rd else {}))
        c.true('ports', list(r['ports']) == ports); c.eq('fs', r['fs'], [f/1e9 for f in w], 1e-7)
        for i, f in enumerate(w): c.eq(f'S {i} {rd}', r['Ss'][i], reref(c, o.getS(f), Z, eZ), TOL*4, TOL*4)

def defaults(c, n):
    """without a format"""
    fs, Ss = data(c, n, 2, 'MA')
    Z = c.pos('Z', 10, 80)
    for kind, f in (('base', lambda o: o.tsf2str()), ('base', lambda o: o.tsf2str(Zbase=c.pos('Zw', 10, 80))), ('table', lambda o: c.mod('WriteTSF').WriteTSF(o))):
        o = obj(c, kind, n, fs, Ss, Z)
        with c.printing(): t = f(o)
        f2, S2, names = decode(c, t, Z)
        c.eq(kind+' f', f2, fs, 1e-7); c.eq(kind+' S', c.np.array(S2), c.np.array(Ss), TOL*n, TOL*n); c.true(kind+' ports', names == NAMES[:n])
        r = c.mod('ReadTSF').ReadTSF(t, Zbase=Z, funit='Hz')
        c.eq(kind+' read f', r['fs'], fs, 1e-7); c.eq(kind+' read S', r['Ss'], c.np.array(Ss), TOL*n, TOL*n)

def hashes(c, writer, kind, pre):
    """the format line with or without its #"""
    fs, Ss = data(c, 2, 2)
    Z = c.pos('Z', 10, 80)
    o = obj(c, kind, 2, fs, Ss, Z)
    with c.printing():
        t = c.mod('WriteTSF').WriteTSF(o, tsf_format=pre+'MHZ S RI R 50') if writer == 'WriteTSF' else o.tsf2str(tfmt=pre+'MHZ S RI R 50')
    r = c.mod('ReadTSF').ReadTSF(t, Zbase=Z)
    c.eq('S', r['Ss'], c.np.array(Ss), TOL, TOL); c.eq('f', r['fs'], [f/1e9 for f in fs], 1e-7)

SPECIAL = [(['!SHAPE 3'], dict(shape=(3, 0))), (['!SHAPE 3 2'], dict(shape=(3, 2))), (['!NUMBERING UP'], dict(numbering='up')), (['!NUMBERING UP LEFT'], dict(numbering=('up', 'left'))), (['!PART TOP'], dict(part='top')),
           (['!PART TOP LEFT'], dict(part=('top', 'left'))), (['!MARKERS 1e6 2.5e6'], dict(markers=[1e6, 2.5e6])), (['!NUMBERING DOWN', '!SHAPE 4', '!PART RIGHT', '!REM x'], dict(numbering='down', shape=(4, 0), part='right'))]

def scenarios(tier):
    q = tier == 'quick'
    L = []
    rng = random.Random('c12')
    NS = (1, 2, 3, 4, 5, 6) if q else (1, 2, 3, 4, 5, 6, 8, 9)
    W = [('WriteTSF', 'table'), ('WriteTSF', 'base'), ('WriteTSF file', 'table'), ('tsf2str', 'base'), ('write_tsf', 'base')]
    def sy(n, fmt, typ): return n <= (4 if fmt == 'RI' and typ == 'S' else 2 if fmt == 'RI' else 2 if typ == 'S' else 1)
    # every combination of unit, type and format, sizes in turn
    k = 0
    for (wr, kind), unit, typ, fmt in itertools.product(W, list(U)+[''], ['S', 'Z', 'Y', ''], ['RI', 'MA', 'DB', '']):
        for n in ((1, 2, NS[2+k % (len(NS)-2)]) if not q else ((1, 2, NS[2+k % (len(NS)-2)])[k % 3],)):
            k += 1
            ref = rng.random() < .7; rd = rng.random() < .6; src = rng.choice(('str', 'path', 'file'))
            L.append(S(f'{wr} {kind} {n} {unit} {typ} {fmt} {int(ref)}{int(rd)} {src}', rt, dict(writer=wr, kind=kind, n=n, m=1+k % 2, unit=unit, typ=typ, fmt=fmt, ref=ref, rd=rd, src=src, sub=k % 5 == 0),
                       target=('WriteTSF' if 'W' in wr else 'rfBase.tsf2str')+',ReadTSF', conc=2, sym=sy(n, fmt, typ)))
    for n in NS:
        for (wr, kind) in W:
            for fmt, typ in (('RI', 'S'), ('MA', 'S'), ('DB', 'S'), ('RI', 'Z'), ('RI', 'Y')):
                L.append(S(f'size {n} {wr} {kind} {fmt} {typ}', rt, dict(writer=wr, kind=kind, n=n, m=2, unit='MHZ', typ=typ, fmt=fmt, ref=True, rd=True, src='str'),
                           target=('WriteTSF' if 'W' in wr else 'rfBase.tsf2str')+',ReadTSF', conc=2, sym=sy(n, fmt, typ)))
    for wr, kind in W:
        for n in (2, 3): L.append(S(f'zero {wr} {kind} {n}', rt, dict(writer=wr, kind=kind, n=n, m=1, unit='MHZ', typ='S', fmt='DB', ref=True, rd=True, src='str', zero=True), target='WriteTSF,ReadTSF', sym=False, conc=2)) if kind else None
    OP = [('MHZ', 'S', 'RI', 'R'), ('hz', 's', 'ma', 'r'), ('R', 'DB', 'S', 'KHz'), ('GHz', 'Z', 'RI', 'R'), ('Y', 'MHz', 'RI'), ('RI',), (), ('MHZ',), ('S', 'R'), ('Z', 'MA'), ('R',), ('DB', 'Ghz')]
    for j, op in enumerate(OP):
        for n in (1, 2, 3, 5) if q else NS:
            fmt = [w for w in op if w.upper() in ('RI', 'MA', 'DB')]; typ = [w for w in op if w.upper() in ('S', 'Y', 'Z')]
            src = ('str', 'path', 'file')[(j+n) % 3]
            L.append(S(f'reading {" ".join(op)} {n}', reading, dict(n=n, m=1+(j+n) % 3, opts=op, src=src, rd=(j+n) % 2, comments=(j//2+n) % 2, names=(j+n//2) % 2, wrap=4, funit=(None, 'Hz', 'MHz')[(j+2*n) % 3]),
                       target=TR, conc=2, sym=sy(n, (fmt+['MA'])[0].upper(), (typ+['S'])[0].upper())))
    for n in (2, 3):
        for fmt in ('RI', 'MA', 'DB'):
            for rd in (0, 1): L.append(S(f'several {n} {fmt} {rd}', several, dict(n=n, m=1+rd, fmt=fmt, rd=rd), target=TR, conc=2, sym=fmt == 'RI' or n == 2))
    for j, (u, wr, n, unit) in enumerate(itertools.product(('MHz', 'kHz', 'GHz'), ('WriteTSF', 'WriteTSF file'), (1, 2, 3), ('HZ', 'MHZ', ''))):
        if q and j % 3 != (j//9) % 3: continue
        fmt, typ = (('RI', 'S'), ('MA', 'S'), ('DB', 'S'), ('RI', 'Z'), ('RI', 'Y'))[j % 5]
        L.append(S(f'table in {u} {wr} {n} {unit} {typ} {fmt}', rt, dict(writer=wr, kind='table '+u, n=n, m=1+j % 2, unit=unit, typ=typ, fmt=fmt, ref=j % 4 > 0, rd=j % 3 > 0, src=('str', 'path', 'file')[j % 3], sub=j % 2),
                   target='WriteTSF,ReadTSF', conc=2, sym=sy(n, fmt, typ)))
    j = 0
    for n in (1, 2, 3, 4):
        for R in (None, 'same', 'other', 'alike'):
            for full in (0, 1):
                for cplx in (0, 1):
                    if R in ('same', 'alike') and cplx: continue
                    j += 1
                    fmt = ('RI', 'MA', 'DB')[j % 3] if not q or j % 2 else 'RI'
                    L.append(S(f'hfss {n} {R} {full} {cplx} {fmt}', hfss, dict(n=n, m=1+j % 3, fmt=fmt, R=R, full=full, wrap=(99, 2, 4)[j//2 % 3], cplx=cplx, how=('str', 'object', 'path', 'file')[j % 4]),
                               target=TR+',ConvertGeneral,rfObject.read_tsf', conc=2, sym=n < 3 and fmt == 'RI' and not (cplx and n > 1)))
    for k, (ls, wt) in enumerate(SPECIAL): L.append(S(f'special {k}', special, dict(lines=ls, want=wt), target='ReadTSF', conc=1))
    for what in ('trl', 'rlc', 'arc', 'circ'):
        for writer in ('WriteTSF', 'tsf2str') if what in ('arc', 'circ') else ('WriteTSF',):
            for fmt in ('RI', 'MA', 'DB'):
                for ref in (0, 1): L.append(S(f'{what} {writer} {fmt} {ref}', objects, dict(what=what, writer=writer, fmt=fmt, ref=ref), target='WriteTSF,rfBase.tsf2str,ReadTSF', conc=2))
    for pre in ('', '#', '# '):
        for wr, kind in (('WriteTSF', 'table'), ('tsf2str', 'base')): L.append(S(f'format line {wr} {pre}', hashes, dict(writer=wr, kind=kind, pre=pre), target='WriteTSF,rfBase.tsf2str', conc=2))
    for n in NS[:5]: L.append(S(f'defaults {n}', defaults, dict(n=n), target='WriteTSF,rfBase.tsf2str,ReadTSF', sym=n < 3, conc=2))
    # beyond the proved sizes: concrete only
    for i in range(40 if q else 300):
        n, m = rng.choice((7, 8, 9, 10, 11, 12, 3, 2, 1)), rng.choice((1, 4, 7, 12))
        wr, kind = rng.choice(W); unit, typ, fmt = rng.choice(list(U)+['']), rng.choice('SSZY'), rng.choice(('RI', 'MA', 'DB', ''))
        L.append(S(f'large {i} {wr} {kind} {n} {unit} {typ} {fmt}', rt, dict(writer=wr, kind=kind, n=n, m=m, unit=unit, typ=typ, fmt=fmt, ref=rng.random() < .6, rd=rng.random() < .6, src=rng.choice(('str', 'path', 'file')), sub=i % 3 == 0),
                   target=('WriteTSF' if 'W' in wr else 'rfBase.tsf2str')+',ReadTSF', sym=False, conc=1))
        op = rng.choice(OP)
        L.append(S(f'large reading {i} {" ".join(op)} {n}', reading, dict(n=n, m=m, opts=op, src=rng.choice(('str', 'path', 'file')), rd=i % 2, comments=i//2 % 2, names=i//3 % 2, wrap=rng.choice((1, 3, 4)), funit=(None, 'Hz', 'MHz')[i % 3]), target=TR, sym=False, conc=1))
    return L
