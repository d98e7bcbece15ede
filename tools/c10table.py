"""which sets of line parameters the resolver admits: o = solved, u = not solved, b = solved with a reported contradiction.
Run with the real interpreter on the tree the table describes; the table is reviewed and committed."""
import sys, os, itertools, json
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__)))); sys.dont_write_bytecode = True
from vc import conc
import numpy as np; np.seterr(all='ignore')
conc.import_repo()
from props import c10
c = conc.ConcCtx('c10', 1, 0)
c.pos('w'); 
def kind(sub):
    T, out = c10.quiet(lambda: c.mod('resolveTLparams').TLresolver(L=1., Zbase=50., **{k: (lambda k: lambda w, x: c10.truth(c, sub, w, x)[k])(k) for k in sub}))
    return 'u' if not (hasattr(T, 'rjwL') and hasattr(T, 'gjwC')) else 'b' if 'warning' in out else 'o'
R = {str(n): ''.join(kind(s) for s in itertools.combinations(c10.KEYS, n)) for n in range(5)}
for n, cnt in c10.SAMPLES.items(): R[str(n)] = ''.join(kind(s) for s in c10.sampled(cnt, n))
json.dump(R, open(os.path.join(os.path.dirname(c10.__file__), 'c10_sets.json'), 'w'), indent=0)
print({k: (v.count('o'), v.count('b'), v.count('u')) for k, v in R.items()})
