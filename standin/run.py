"""run.py PROPERTY CASES.json OUT.json -- runs under the repository's interpreter.
Concrete cross-check of one property against the real code, with independent oracles."""
import sys, os, json, random, traceback, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.dont_write_bytecode = True
sys.path.insert(0, REPO); sys.path.insert(1, HERE)

class Enough(Exception): pass
class T:
    def __init__(self, prop):
        self.prop = prop; self.seed = int(os.environ.get('VERIF_SEED', '1')); self.tier = os.environ.get('VERIF_TIER', 'quick')
        self.thorough = self.tier == 'thorough'
        self.rng = random.Random(self.seed * 1000003 + sum(map(ord, prop)))
        self.n = 0; self.keys = set(); self.samples = []; self.failures = []; self.bounds = []; self.rule = ''
    def case(self, inp, nontrivial=True):
        self.n += 1
        if nontrivial: self.keys.add(repr(inp))
        if len(self.samples) < 5 or (self.n % 997 == 0 and len(self.samples) < 8): self.samples.append(repr(inp)[:300])
    def fail(self, what, inp, key=None):
        self.failures.append({'what': str(what)[:1500], 'input': repr(inp)[:3000], 'key': key})
        if len([f for f in self.failures if not f['key']]) >= 25: raise Enough()
    def guard(self, name, fn, *a):
        """run one group of cases; an unexpected exception is a failure of that group"""
        try: fn(*a)
        except Enough: raise
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            self.fail('%s: unexpected %s: %s at %s' % (name, type(e).__name__, e, '; '.join('%s:%d' % (os.path.basename(f.filename), f.lineno) for f in tb[-4:])), name)

def main():
    prop, cf, of = sys.argv[1:4]
    t = T(prop)
    with open(cf) as f: t.cases = json.load(f)
    import numpy as np
    np.random.seed(t.seed); random.seed(t.seed)
    try:
        m = importlib.import_module('s' + prop[1:])
        m.check(t)
    except Enough: pass
    except Exception:
        t.failures.append({'what': 'cross-check stopped: ' + traceback.format_exc()[-1500:], 'input': 'import or set-up', 'key': None})
    with open(of, 'w') as f:
        json.dump({'evaluations': t.n, 'distinct': len(t.keys), 'samples': t.samples, 'failures': t.failures, 'rule': t.rule, 'bounds': t.bounds}, f)
main()
