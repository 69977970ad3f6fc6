#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]

Loads /repo's current source, generates and discharges the obligations of the property's
contracts, replays counterexamples and runs the concrete cross-check against the real
code under the repository's interpreter, writes evidence/PROPERTY.json."""
import sys, os, json, time, importlib, subprocess, tempfile, shutil, argparse, warnings
warnings.simplefilter('ignore')
sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(20000)
from engine import core, shadows

VENV = '/opt/venv/bin/python'
def standin(prop, tier, seed, cases, timeout):
    d = tempfile.mkdtemp(prefix='vx_%s_' % prop)
    try:
        cf, of = os.path.join(d, 'cases.json'), os.path.join(d, 'out.json')
        with open(cf, 'w') as f: json.dump(cases, f)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', VERIF_SEED=str(seed), VERIF_TIER=tier, PYTHONHASHSEED='0',
                   OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', HOME=d)
        p = subprocess.run([VENV, '-W', 'ignore', '-B', os.path.join(HERE, 'standin', 'run.py'), prop, cf, of], env=env,
                           cwd=d, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        if not os.path.exists(of):
            return {'error': 'cross-check ended with %d: %s' % (p.returncode, p.stderr.decode(errors='replace')[-1500:])}
        with open(of) as f: return json.load(f)
    except subprocess.TimeoutExpired:
        return {'error': 'cross-check timed out'}
    finally:
        shutil.rmtree(d, ignore_errors=True)

def known(prop):
    out = []
    p = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                body = line.split(' ', 2)[2]
                key, _, text = body.partition(' :: ')
                out.append((key.strip(), text.strip()))
    return out

def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--no-standin', action='store_true'); ap.add_argument('--no-proof', action='store_true')
    ap.add_argument('-v', action='store_true')
    a = ap.parse_args()
    prop, tier = a.prop, a.tier
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    led = core.Ledger(); led.need = 1
    sys.path.insert(0, os.path.join(HERE, 'tools'))
    from levels import LEVELS
    level = LEVELS[prop][0] if prop in LEVELS else 'other'
    core.DEADLINE[0] = t0 + (420 if tier == 'quick' else 1500)
    modpath = os.path.join(HERE, 'contracts', prop.lower() + '.py')
    err = None
    mod = None
    if os.path.exists(modpath) and not a.no_proof:
        mod = importlib.import_module('contracts.' + prop.lower())
        try:
            mod.run(led, tier)
        except (Exception, core.Unsupported, core.Infeasible) as e:
            import traceback
            # e.g. the module under verification no longer loads, or a name is gone
            led.add('%s: generating the obligations' % prop, 'unknown', 'engine', detail=traceback.format_exc()[-1500:])
    refuted = [o for o in led.obs if o.status == 'refuted']
    unknown = [o for o in led.obs if o.status == 'unknown']
    cases = []
    if mod is not None and hasattr(mod, 'case_of'):
        for o in refuted[:40]:
            try:
                c = mod.case_of(o)
                if c is not None: cases.append(dict(c, obligation=o.name))
            except Exception: pass
    res = {} if a.no_standin else standin(prop, tier, seed, cases, 700 if tier == 'quick' else 3000)
    fails = res.get('failures', [])
    if 'error' in res:
        # the cross-check itself could not run on the code: a code error in import, etc.
        fails = fails + [{'what': res['error'], 'input': 'running the cross-check', 'key': 'error'}]
    kn = known(prop)
    listed = [f for f in fails if any(f.get('key') == k for k, _ in kn)]
    new = [f for f in fails if f not in listed]
    seen = {f.get('key') for f in listed}
    kn_ob = set()
    left = []
    for o in refuted:
        if mod is not None and hasattr(mod, 'known_key') and mod.known_key(o) in [k for k, _ in kn]: kn_ob.add(mod.known_key(o))
        else: left.append(o)
    refuted = left
    for k, text in kn:
        if k in seen or k in kn_ob: print('KNOWN-FINDING: property=%s %s' % (prop, text))
    vac = mod is not None and level == 'proof' and not unknown and led.count('proved') < led.need
    ev = evidence(prop, tier, seed, level, led, res, mod, time.time() - t0, refuted, unknown, new)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    status = 0
    replay = os.path.join(HERE, 'evidence', 'replay-%s.json' % prop)
    if os.path.exists(replay): os.remove(replay)
    if new or refuted or vac:
        status = 1; ev['violations'] = max(1, len(new) + (0 if new else len(refuted)))
        with open(replay, 'w') as f:
            json.dump({'property': prop, 'failing_inputs': new[:20],
                       'failed_obligations': [ob(o) for o in refuted[:40]], 'undischarged': [ob(o) for o in unknown[:40]],
                       'vacuous': bool(vac),
                       'how': 'python3-vt check.py %s ; failing_inputs are run on the real code by %s standin/run.py' % (prop, VENV)}, f, indent=1)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d obligations, %d discharged, %d refuted, %d undecided; cross-check: %s cases; %.1f s' % (
        prop, tier, len(led.obs), led.count('proved'), len(refuted), len(unknown), res.get('evaluations'), time.time() - t0))
    if a.v:
        for o in refuted[:20] + unknown[:20]: print('  ', o.status, o.name, '|', o.detail[:300], '|', o.path[:200], o.model)
        for f in new[:10]: print('  FAIL', json.dumps(f)[:600])
    if status:
        for o in refuted[:3]: print('obligation not provable: %s (%s)' % (o.name, o.detail[:200]))
        for f in new[:3]: print('fails on the real code: %s' % json.dumps(f)[:400])
        if vac: print('only %d obligations were generated (at least %d expected)' % (led.count('proved'), led.need))
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if new else ' no-failing-input-found'))
    sys.exit(status)

def ob(o): return {'obligation': o.name, 'status': o.status, 'backend': o.backend, 'detail': o.detail[:1500], 'path': o.path[:1500], 'model': o.model}

def evidence(prop, tier, seed, level, led, res, mod, wall, refuted, unknown, new):
    back = {}
    for o in led.obs:
        if o.status == 'proved': back[o.backend] = back.get(o.backend, 0) + 1
    cov = {'obligations': len(led.obs), 'discharged': led.count('proved'), 'refuted': len(refuted), 'undecided': len(unknown),
           'checker_cmd': 'python3-vt check.py %s --tier %s' % (prop, tier),
           'discharged_by': back, 'functions_under_contract': led.functions, 'paths': led.paths, 'solver_queries': led.queries,
           'solver_s': round(led.solver_s, 2),
           'trusted_base': shadows.TRUSTED + sorted(led.trusted),
           'bounded_stand_ins': led.bounded + res.get('bounds', []),
           'evaluations': res.get('evaluations', 0), 'distinct_nontrivial': res.get('distinct', 0), 'rule': res.get('rule', ''),
           'samples': res.get('samples', [])[:5] + [o.name for o in led.obs[:5]]}
    if unknown: cov['undischarged'] = [ob(o) for o in unknown[:20]]
    if level == 'other': cov['explanation'] = getattr(mod, 'EXPLANATION', 'contracts where they reach; the rest by the bounded cross-check')
    return {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
            'assumptions': getattr(mod, 'ASSUMPTIONS', []) + sorted(led.trusted), 'wall_s': round(wall, 2), 'violations': 0}
if __name__ == '__main__': main()
