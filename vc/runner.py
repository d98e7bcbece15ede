"""check.py PROP : run the contracts of one property symbolically and concretely."""
import sys, os, json, time, subprocess, tempfile, importlib, hashlib, shutil, signal, random, traceback
import multiprocessing as mpx
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PYRFTK_REPO', '/repo')
VENV = os.environ.get('PYRFTK_PYTHON', '/opt/venv/bin/python')
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', MPLCONFIGDIR='/opt/vp/mplconfig',
           PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONIOENCODING='utf-8')
NPROC = int(os.environ.get('VERIF_NPROC', '0')) or min(8, os.cpu_count() or 4)
TRUSTED = ['machine arithmetic is treated as mathematical: floats are the exact reals they approximate',
           'numpy array/ufunc semantics as given by the symbolic shim (vc/shim.py)',
           'numpy.linalg.inv returns the exact inverse of a non-singular matrix',
           'CPython executes the module text; the shim changes names bound to numpy, scipy, float, complex, isinstance only',
           'identities of the symbolic terms are decided over GF(p^2), p=2^61-1, at 3 independent points '
           '(a false rational identity of degree d survives with probability <= (d/p)^3)']

def _sym_task(a):
    """run in a forked worker"""
    prop, tier, seed, idx = a
    from . import term, shim, explore, symctx
    t0 = time.time()
    m = importlib.import_module('props.'+prop.lower())
    sc = m.scenarios(tier)[idx]
    out = {'name': sc.name, 'target': sc.target, 'obl': [], 'paths': 0, 'bounded': sc.bounded}
    try:
        L = _loader()
        E = explore.Explorer(lambda c: sc.fn(c, **sc.kw), seed, sc.maxpaths, t0+sc.tl)
        def alarm(*a): raise explore.Timeout()
        signal.signal(signal.SIGALRM, alarm); signal.setitimer(signal.ITIMER_REAL, sc.tl*1.5+5)
        res, inf, trunc = E.explore(lambda: symctx.SymCtx(L, seed, sc.name))
        signal.setitimer(signal.ITIMER_REAL, 0)
        out['paths'] = len(res); out['infeasible'] = inf
        for i, c in enumerate(res):
            for lab, st, d in c.obl: out['obl'].append((i, lab, st, d))
        if trunc: out['obl'].append((-1, 'exploration', 'undecided', trunc))
        if not res: out['obl'].append((-1, 'vacuity', 'undecided', 'no feasible path'))
    except explore.Timeout:
        out['obl'].append((-1, 'exploration', 'undecided', 'time limit'))
    except term.Unsupported as e:
        out['obl'].append((-1, 'exploration', 'undecided', 'unsupported: '+str(e)))
    except RecursionError:
        out['obl'].append((-1, 'exploration', 'undecided', 'recursion'))
    except MemoryError:
        out['obl'].append((-1, 'exploration', 'undecided', 'memory: time limit'))
    except (Exception, explore.Infeasible, explore.PathLimit) as e:
        out['obl'].append((-1, 'exploration', 'undecided', f'engine: {type(e).__name__}: {e} '+traceback.format_exc()[-700:]))
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
    from . import z3b
    out['z3'] = dict(z3b.STAT)
    out['t'] = time.time()-t0
    return out

_L = []
def _loader():
    from . import shim
    if not _L:
        L = shim.load_repo()
        for k, v in L.mods.items(): sys.modules[k] = v
        _L.append(L)
    return _L[0]

def _winit(scratch):
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
    sys.setrecursionlimit(20000)
    d = tempfile.mkdtemp(dir=scratch); os.chdir(d)
    sys.stdout = open(os.devnull, 'w'); import warnings; warnings.simplefilter('ignore')

def conc_run(prop, tier, seed, runs, scratch, budget):
    if not runs: return []
    d = tempfile.mkdtemp(dir=scratch)
    p = subprocess.Popen([VENV, '-m', 'vc.conc'], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                         cwd=d, env=dict(ENV, PYTHONPATH=VERIF, PYRFTK_REPO=REPO), text=True)
    return p, json.dumps({'prop': prop, 'tier': tier, 'seed': seed, 'runs': runs, 'budget': budget})
def conc_get(h, timeout):
    p, job = h
    try: o, e = p.communicate(job, timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill(); p.communicate(); return None, 'timeout'
    if '@@RESULT@@' not in o: return None, (e or o)[-2000:]
    return json.loads(o.split('@@RESULT@@')[1]), None

def known():
    r = []
    try:
        for l in open(os.path.join(VERIF, 'known_findings.txt')):
            l = l.strip()
            if l.startswith('known:'):
                d = dict(x.split('=', 1) for x in l[6:].split('|')[0].split())
                d['text'] = l.split('|', 1)[1].strip() if '|' in l else ''
                r.append(d)
    except FileNotFoundError: pass
    return r

def main(argv):
    import argparse
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier'); ap.add_argument('--only'); ap.add_argument('-v', action='store_true')
    ap.add_argument('--nosym', action='store_true'); ap.add_argument('--noconc', action='store_true')
    ap.add_argument('--replay')
    a = ap.parse_args(argv)
    tier = a.tier or os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'): tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = a.prop
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix=f'verif_{prop}_')
    try:
        if a.replay: return replay(a, prop, scratch)
        return check(a, prop, tier, seed, t0, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

def replay(a, prop, scratch):
    r = json.load(open(a.replay))
    if 'scenario' not in r:
        print(json.dumps(r, indent=1)); return 1
    res, err = conc_get(conc_run(prop, r['tier'], r['seed'], [[r['scenario'], r['sample'], r['values']]], scratch, 300), 400)
    print(res or err)
    return 1 if res and res[0][2] == 'fail' else 0

def check(a, prop, tier, seed, t0, scratch):
    m = importlib.import_module('props.'+prop.lower())
    scs = m.scenarios(tier)
    assert len({s.name for s in scs}) == len(scs), 'duplicate scenario names'
    if a.only: scs_idx = [i for i, s in enumerate(scs) if a.only in s.name]
    else: scs_idx = list(range(len(scs)))
    # concrete
    runs = []
    mult = 1 if tier == 'quick' else 6
    for i in scs_idx:
        s = scs[i]
        for k in range(s.conc*mult if s.conc else 0): runs.append([s.name, k, None])
    handles = []
    budget = 240 if tier == 'quick' else 1500
    if not a.noconc:
        nc = 3 if len(runs) > 30 else 1
        for j in range(nc): 
            rr = runs[j::nc]
            if rr: handles.append((rr, conc_run(prop, tier, seed, rr, scratch, budget)))
    # feed the concrete jobs in threads
    import threading
    cres, cerr = [], []
    def feed(rr, h):
        r, e = conc_get(h, budget+120)
        if r is None: cerr.append(e)
        else: cres.extend(r)
    ths = [threading.Thread(target=feed, args=x) for x in handles]
    for t in ths: t.start()
    # symbolic
    sres = []
    todo = [i for i in scs_idx if scs[i].sym] if not a.nosym else []
    if todo:
        kn0 = {k.get('scenario') for k in known() if k.get('property') == prop}
        symbudget = 300 if tier == 'quick' else 3000
        ctx = mpx.get_context('fork')
        with ctx.Pool(max(1, NPROC-1), initializer=_winit, initargs=(scratch,), maxtasksperchild=40) as pool:
            pend = [(i, pool.apply_async(_sym_task, ((prop, tier, seed, i),))) for i in todo]
            for i, r in pend:
                while not r.ready():
                    left = symbudget-(time.time()-t0)
                    # failing inputs decide the verdict: no need to prove the rest at length
                    if not any(t.is_alive() for t in ths) and any(x[2] == 'fail' and x[0] not in kn0 for x in cres): left = min(left, 25-(time.time()-t0))
                    if left <= 0: break
                    r.wait(min(left, 1.))
                try: sres.append(r.get(timeout=.1))
                except mpx.TimeoutError:
                    sres.append({'name': scs[i].name, 'target': scs[i].target, 'obl': [(-1, 'exploration', 'undecided', 'budget')], 'paths': 0, 't': 0, 'bounded': True, 'z3': {'calls': 0, 'time': 0}})
                except Exception as e:
                    sres.append({'name': scs[i].name, 'target': scs[i].target, 'obl': [(-1, 'exploration', 'undecided', f'worker: {e!r}')], 'paths': 0, 't': 0, 'bounded': True, 'z3': {'calls': 0, 'time': 0}})
            pool.terminate()
    for t in ths: t.join()
    # extra deductive parts (unbounded tiers)
    extra = None
    if hasattr(m, 'extra') and not a.only:
        extra = m.extra(tier, seed, scratch)
    # ---- replay refutations on the real code
    fails = [(n, k, d, v) for n, k, st, d, cnt, v in cres if st == 'fail']
    refs = [(s['name'], o) for s in sres for o in s['obl'] if o[2] == 'refuted']
    rr = []; seen = {}
    for n, o in refs:
        env = o[3][1]
        if seen.get((n, o[1]), 0) < 2:
            seen[(n, o[1])] = seen.get((n, o[1]), 0)+1
            rr.append([n, 1000+len(rr), env])
    unconf = []
    rr = rr[:60]
    if rr and not a.noconc:
        res, err = conc_get(conc_run(prop, tier, seed, rr, scratch, 200), 300)
        if res is None: cerr.append(err)
        else:
            okn = set()
            for (n, k, st, d, cnt, v) in res:
                if st == 'fail': fails.append((n, k, d, v)); okn.add(n)
            for n, o in refs:
                if n not in okn and not any(f[0] == n for f in fails): unconf.append((n, o))
    else: unconf = refs
    # ---- known findings
    kn = [k for k in known() if k.get('property') == prop]
    viol, kf = [], {}
    for n, k, d, v in fails:
        left = []
        for lab, msg in d:
            hit = None
            for q in kn:
                if q.get('scenario') == n and q.get('label', lab) == lab: hit = q
            if hit: kf[hit['text']] = 1
            else: left.append((lab, msg))
        if left: viol.append((n, k, left, v))
    for t in kf: print(f'KNOWN-FINDING: property={prop} {t}')
    # ---- evidence
    cnt = {}
    for s in sres:
        for o in s['obl']: cnt[o[2]] = cnt.get(o[2], 0)+1
    total = sum(cnt.values())
    disch = sum(cnt.get(k, 0) for k in ('syntactic', 'gf', 'z3', 'lean'))
    und = [(s['name'], o[1], o[2], str(o[3])[:240]) for s in sres for o in s['obl'] if o[2] in ('undecided', 'numeric')]
    und += [(n, o[1], 'refuted but not reproduced on the real code', str(o[3])[:240]) for n, o in unconf]
    # an obligation the prover does not accept is reported; limits of time are not
    soft = {scs[i].name for i in scs_idx if scs[i].soft}
    kns = {q.get('scenario') for q in kn}
    hard = [[n, o[1], 'refuted, not reproduced', str(o[3])[:1000]] for n, o in unconf]
    hard += [[s['name'], o[1], o[2], str(o[3])[:1000]] for s in sres for o in s['obl'] if o[2] == 'undecided' and not
             any(w in str(o[3]) for w in ('time limit', 'path limit', 'budget', 'worker:', 'it may be infeasible', 'recursion', 'depth'))]
    hard = [h for h in hard if h[0] not in soft and h[0] not in kns]
    okc = [r for r in cres if r[2] == 'ok']
    lines = []
    if extra:
        total += extra['obligations']; disch += extra['discharged']
        for x in extra.get('undischarged', []): und.append(tuple(x))
    level = getattr(m, 'LEVEL', 'other')
    targets = sorted({t.strip() for i in scs_idx for t in scs[i].target.split(',') if t.strip()})
    cov = {
        'explanation': getattr(m, 'EXPLANATION', ''),
        'obligations': total, 'discharged': disch,
        'checker_cmd': f'cd /verif && python3-vt check.py {prop} --tier {tier}',
        'trusted_base': TRUSTED+list(getattr(m, 'TRUSTED', [])),
        'obligations_by_status': cnt, 'contracts_symbolic': len(sres), 'paths': sum(s['paths'] for s in sres),
        'functions_under_contract': targets,
        'solver_time_s': {'z3': round(sum(s['z3']['time'] for s in sres), 2), 'symbolic_total': round(sum(s['t'] for s in sres), 2)},
        'undischarged': [list(u) for u in und[:40]], 'undischarged_count': len(und),
        'bounded_standin': {'runs': len(cres), 'ok': len(okc), 'conditions_evaluated': sum(r[4] for r in cres),
                            'skipped': sum(1 for r in cres if r[2] == 'skip'), 'not_run': sum(1 for r in cres if r[2] in ('budget', 'timeout')),
                            'rule': 'each contract instance on the real package and real numpy with inputs drawn from its domain (seeded)'},
        'evaluations': len(cres), 'distinct_nontrivial': len({(r[0], r[1]) for r in okc if r[4] > 0}),
        'rule': 'contract instance x sample; non-trivial when at least one condition was evaluated',
        'samples': [{'contract': scs[i].name, 'parameters': str(scs[i].kw)[:200]} for i in scs_idx[:6]],
        'bounds': getattr(m, 'BOUNDS', ''),
        'scope_of_obligations': {'unbounded': sum(1 for s in sres if not s['bounded']), 'bounded_shapes_all_values': sum(1 for s in sres if s['bounded'])},
    }
    if extra: cov['unbounded_part'] = {k: v for k, v in extra.items() if k != 'violations'}
    evd = os.path.join(VERIF, 'evidence'); os.makedirs(evd, exist_ok=True)
    rc = 0
    if viol:
        rd = os.path.join(evd, 'replay'); os.makedirs(rd, exist_ok=True)
        n, k, left, v = viol[0]
        path = os.path.join(rd, f'{prop}.json')
        json.dump({'property': prop, 'scenario': n, 'tier': tier, 'seed': seed, 'sample': k, 'values': v, 'failed': left,
                   'all_failing': [[x[0], x[2]] for x in viol[:40]],
                   'obligations_refuted': [[nn, o[1], str(o[3])[:500]] for nn, o in refs[:20]],
                   'how': f'python3-vt /verif/check.py {prop} --replay {path}'}, open(path, 'w'), indent=1)
        print(f'{len(viol)} failing contract runs; first: {n}: {left[0][0]}: {left[0][1][:300]}')
        lines.append(f'VIOLATION property={prop} replay={path}')
        rc = 1
    elif hard or (extra and extra.get('violations')):
        rd = os.path.join(evd, 'replay'); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, f'{prop}.json')
        json.dump({'property': prop, 'failed_obligations': hard+list((extra or {}).get('violations', []))}, open(path, 'w'), indent=1, default=str)
        print('failed obligation:', (hard+list((extra or {}).get('violations', [])))[0])
        lines.append(f'VIOLATION property={prop} replay={path} no-failing-input-found')
        rc = 1
    json.dump({'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
               'assumptions': list(getattr(m, 'ASSUMPTIONS', []))+TRUSTED,
               'wall_s': round(time.time()-t0, 2), 'violations': len(viol)},
              open(os.path.join(evd, f'{prop}.json'), 'w'), indent=1)
    print(f'{prop} {tier}: {len(sres)} contracts, {cov["paths"]} paths, obligations {total} discharged {disch} {cnt}; '
          f'concrete {len(okc)}/{len(cres)} ok; {time.time()-t0:.1f}s')
    if a.v or os.environ.get('VERIF_VERBOSE'):
        for u in und[:12]: print('   UNDISCHARGED', u)
        for s in sorted(sres, key=lambda s: -s['t'])[:25]: print('   slow', s['name'], round(s['t'], 1), s['paths'])
        for r in cres:
            if r[2] not in ('ok', 'fail', 'skip'): print('   conc', r[:4])
        for x in viol[:6]: print('   FAIL', x[0], x[1], x[2][:2])
    if cerr:
        print('concrete run error:', cerr[0][-1500:])
    for l in lines: print(l)
    if rc == 0 and (total == 0 or cerr or (disch == 0 and not okc)):
        # nothing could be established: no verdict
        if cerr or not okc: return 2
    return rc
