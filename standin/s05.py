import random, itertools, numpy as np
import oracle as O
from blueqat import Circuit
def prep(n, r):
    """random circuit giving a generic entangled state, and that state"""
    ops = [('u3', tuple(r.uniform(0, 6, 3)), q) for q in range(n)] + [('cx', (), (q, (q + 1) % n)) for q in range(n if n > 1 else 0)] + [('u3', tuple(r.uniform(0, 6, 3)), q) for q in range(n)]
    return ops, O.run(ops, n)
def proj(psi, n, q, v):
    i = np.arange(2 ** n)
    return np.where(((i >> q) & 1) == v, psi, 0)
class Draws:
    """random.random() replaced by chosen values"""
    def __init__(self, vals): self.vals = list(vals); self.n = 0
    def __enter__(self):
        self.old = random.random
        def f():
            self.n += 1
            return self.vals.pop(0) if self.vals else self.old()
        random.random = f
        return self
    def __exit__(self, *a): random.random = self.old
def after(ops, n, tail, **kw):
    c = O.build(Circuit, ops + tail, n)
    v, cnt = c.run(shots=1, returns='statevector_and_shots', **kw)
    (key, k), = cnt.items()
    return v, key
def ideal(psi, n, tail, key=None):
    """all (probability, state, cregs) branches of a list of measure/reset/unitary ops"""
    br = [(1.0, psi, [0] * n)]
    for g, ps, t in tail:
        nb = []
        if g in ('m', 'measure', 'reset'):
            for q in O.targets(t, n):
                nb = []
                for p, s, cr in br:
                    for v in (0, 1):
                        x = proj(s, n, q, v); pr = np.linalg.norm(x) ** 2
                        if pr < 1e-13: continue
                        x = x / np.sqrt(pr); c2 = list(cr)
                        if g == 'reset':
                            if v: x = O.apply(x, O.X, [q], n)
                        else: c2[q] = v
                        nb.append((p * pr, x, c2))
                br = nb
        else: br = [(p, O.run([(g, ps, t)], n, s), cr) for p, s, cr in br]
    return br
def one(t, n, ops, psi, tail):
    inp = {'n': n, 'tail': tail}
    t.case((n, repr(tail)))
    v, key = after(ops, n, tail)
    br = ideal(psi, n, tail)
    ok = [b for b in br if ''.join(map(str, b[2])) == key and O.phase_close(v, b[1], 1e-7)]
    if not ok: t.fail('the state after the run is not a branch with the recorded bits %s' % key, inp)
    if abs(np.linalg.norm(v) - 1) > 1e-9: t.fail('norm %r' % np.linalg.norm(v), inp)
    strict = [b for b in ok if O.close(v, b[1], 1e-7)]
    if ok and not strict and all(g in ('m', 'measure', 'reset') for g, _, _ in tail): t.fail('measurement or reset changed the phase of the state', inp)
def frac(t, n, ops, psi, g, q, m=101):
    """share of the draws that give each outcome, over an even grid of draws"""
    zero = 0; used = 0
    p0 = np.linalg.norm(proj(psi, n, q, 0)) ** 2
    outs = []
    for k in range(m):
        u = (k + .5) / m
        with Draws([u]) as d:
            v, key = after(ops, n, [(g, (), q)])
            used = d.n
        if g == 'reset':
            a = proj(psi, n, q, 0); b = O.apply(proj(psi, n, q, 1), O.X, [q], n)
            o = 0 if O.close(v, a / np.linalg.norm(a), 1e-7) else 1 if O.close(v, b / np.linalg.norm(b), 1e-7) else None
            if o is None: t.fail('reset leaves neither branch state', (n, q, u)); return
            if key != '0' * n: t.fail('reset changed a classical bit', (n, q, u, key))
        else:
            o = int(key[q])
        outs.append(o)
    t.case((g, n, q, round(p0, 6)))
    tol = 1.01 / m if used == 1 else 6 * np.sqrt(p0 * (1 - p0) / m) + .01
    f = outs.count(0) / m
    if abs(f - p0) > tol: t.fail('%s: outcome 0 for a share %.4f of the draws, squared norm is %.4f' % (g, f, p0), (n, q))
def chi(t, n, ops, psi, tail, shots):
    inp = (n, repr(tail)); t.case(('dist',) + inp)
    random.seed(t.seed + n)
    cnt = O.build(Circuit, ops + tail, n).run(shots=shots)
    want = {}
    for p, s, cr in ideal(psi, n, tail):
        k = ''.join(map(str, cr)); want[k] = want.get(k, 0) + p
    if set(cnt) - set(want): t.fail('impossible records %r' % (set(cnt) - set(want)), inp)
    for k, p in want.items():
        if abs(cnt.get(k, 0) - shots * p) > 7 * np.sqrt(shots * p * (1 - p)) + 3: t.fail('record %s seen %d times, expected %.1f of %d' % (k, cnt.get(k, 0), shots * p, shots), inp)
def changing(t, rounds):
    """one circuit on basis states, changed step by step: every run gives the certain outcome"""
    for _ in range(rounds):
        n = t.rng.randint(1, 3); c = Circuit(n); ops = []; old = []
        for _ in range(t.rng.randint(4, 16)):
            if t.rng.random() < .25 and n < 6: n += 1; new = ('x', (), n - 1)
            else: new = (t.rng.choice(['x', 'm', 'm', 'reset']), (), O.rtarget1(t.rng, n)) if n < 2 or t.rng.random() < .7 else (t.rng.choice(['cx', 'swap']), (), tuple(t.rng.sample(range(n), 2)))
            how = t.rng.choice(['op', 'op', 'op', 'sum', 'replace', 'pop', 'copy', 'swap'])
            if how in ('replace', 'pop', 'swap') and (not ops or new[2] == n - 1): how = 'op'
            k = t.rng.randrange(len(ops)) if ops else 0
            if how == 'op': getattr(c, new[0])[new[2]]; ops.append(new)
            elif how == 'sum': c = c + O.build(Circuit, [new], 1); ops.append(new)
            elif how == 'replace': c.ops[k] = O.build(Circuit, [new], n).ops[0]; ops[k] = new
            elif how == 'pop': c.ops.pop(k); ops.pop(k)
            elif how == 'swap': c.ops[0], c.ops[k] = c.ops[k], c.ops[0]; ops[0], ops[k] = ops[k], ops[0]
            else: c = c.copy()
            n = c.n_qubits
            try: tg = [O.targets(o[2], n) if o[0] not in ('cx', 'swap') else None for o in ops]
            except Exception: break
            if any(x and not all(0 <= q < n for q in x) for x in tg): break
            bits = [0] * n; rec = [0] * n
            for o, x in zip(ops, tg):
                if o[0] == 'cx': bits[o[2][1]] ^= bits[o[2][0]]
                elif o[0] == 'swap': a, b = o[2]; bits[a], bits[b] = bits[b], bits[a]
                else:
                    for q in x:
                        if o[0] == 'x': bits[q] ^= 1
                        elif o[0] == 'm': rec[q] = bits[q]
                        else: bits[q] = 0
            key = ''.join(map(str, rec)); t.case(('changing', n, repr(ops)))
            v, got = c.run(shots=2, returns='statevector_and_shots')
            i = sum(b << q for q, b in enumerate(bits))
            if dict(got) != {key: 2} or abs(abs(v[i]) - 1) > 1e-9: t.fail('a circuit changed step by step: recorded %r, not %r' % (dict(got), key), (n, ops)); break
            old.append((got, dict(got), v, v.copy()))
            for g, w, a, b in old:
                if dict(g) != w or not np.array_equal(a, b): t.fail('a later run changed what an earlier one returned', (n, ops)); return
            if t.rng.random() < .3: got[key] = 77; old[-1] = (got, dict(got), v, v.copy())
def check(t):
    t.rule = 'generic entangled states; every qubit; lists of targets; draws over an even grid'
    t.bounds = ['registers of at most 5 qubits (14 for a few), at most 300 operations']
    r = np.random.RandomState(t.seed)
    def branches():
        for i in range(250 if t.thorough else 90):
            n = t.rng.randint(1, 5); ops, psi = prep(n, r)
            tail = []
            for _ in range(t.rng.randint(1, 4)):
                tail.append((t.rng.choice(['m', 'measure', 'reset', 'm']), (), O.rtarget1(t.rng, n)))
                if t.rng.random() < .5: tail.append(O.rop(t.rng, n, ['h', 'x', 'rx', 'cx', 's', 'u3'], simple=True))
            one(t, n, ops, psi, tail)
    t.guard('branches', branches)
    t.guard('changing', lambda: changing(t, 60))
    def fractions():
        for n in (1, 2, 3, 4):
            for q in range(n):
                ops, psi = prep(n, r)
                for g in ('m', 'reset'): frac(t, n, ops, psi, g, q, 101 if n < 4 else 51)
        # lopsided states
        for th in (0.05, 0.6, 3.0):
            ops = [('ry', (th,), 0), ('cx', (), (0, 1))]; psi = O.run(ops, 2)
            for g in ('m', 'reset'): frac(t, 2, ops, psi, g, 0, 201)
    t.guard('probabilities', fractions)
    def lopsided():
        """an outcome of small probability, taken or not"""
        for e in (.3, .1, .03, .01, 4e-3):
            for th in (e, np.pi - e):
                ops = [('ry', (th,), 0), ('cx', (), (0, 2)), ('u3', (.4, .5, .6), 2), ('h', (), 1)]; psi = O.run(ops, 3); p = np.sin(e / 2) ** 2
                for tail in ([('m', (), 0)], [('reset', (), 0)], [('m', (), (1, 0))], [('reset', (), (0, 1))]):
                    for u in (.5, p / 3, 1 - p / 3):
                        t.case(('lopsided', th, tail, u))
                        with Draws([u] * 2): one(t, 3, ops, psi, tail)
                seen = set()
                for u in (p / 3, 1 - p / 3):
                    with Draws([u]) as d:
                        v, key = after(ops, 3, [('m', (), 0)]); k = d.n
                    seen.add(key[0])
                if k and e > 1e-4 and len(seen) < 2: t.fail('an outcome of probability %g never comes' % p, th)
    t.guard('lopsided', lopsided)
    def certain():
        for n in (1, 2, 3):
            for bits in itertools.product((0, 1), repeat=n):
                for u in (0.0, 1e-300, 0.5, 1 - 2 ** -53):
                    ops = [('x', (), q) for q in range(n) if bits[q]]
                    with Draws([u] * 8):
                        v, key = after(ops, n, [('m', (), slice(None))])
                    t.case(('certain', bits, u))
                    if key != ''.join(map(str, bits)): t.fail('a certain outcome was measured as %s' % key, (bits, u))
                    with Draws([u] * 8): v, key = after(ops, n, [('reset', (), slice(None))])
                    if abs(v[0] - 1) > 1e-9: t.fail('reset of a basis state does not give |0..0>', (bits, u))
    t.guard('certain outcomes', certain)
    def again():
        for k in range(60):
            n = t.rng.randint(2, 4); ops, psi = prep(n - 1, r); q = t.rng.randrange(n - 1); a = n - 1
            t.case(('again', n, q))
            two = [[('m', (), q)], [('m', (), (q, q))], [('m', (), q), ('m', (), q)]][k % 3]
            for u in (0.01, .3, .7, .99):
                # the first value is kept in another qubit, then the qubit is measured again
                with Draws([u, 1 - u, u, 1 - u, u]): v, key = after(ops, n, two + [('cx', (), (q, a)), ('m', (), q), ('m', (), a)])
                if key[q] != key[a]: t.fail('measuring again changes the value', (n, q, u, key))
    t.guard('repeated measurement', again)
    def dist():
        for n, tail in [(2, [('m', (), slice(None))]), (3, [('m', (), slice(None))]), (3, [('m', (), (2, 0))]), (3, [('m', (), 1), ('h', (), 1), ('m', (), slice(None))]),
                        (3, [('m', (), slice(None)), ('reset', (), 1), ('h', (), 1), ('m', (), 1)]), (2, [('m', (), 0), ('reset', (), 0)]), (4, [('reset', (), (0, 2)), ('m', (), slice(None, None, -1))]),
                        (2, [('m', (), 0), ('x', (), 0)]), (2, [('reset', (), 1), ('m', (), 1)])]:
            ops, psi = prep(n, r)
            chi(t, n, ops, psi, tail, 4000 if t.thorough else 1500)
    t.guard('joint distribution', dist)
    def large():
        for n in (7, 10, 13):
            ops, psi = prep(n, r)
            q = t.rng.sample(range(n), 3)
            # two qubits stay unmeasured, so that a state is left to compare
            one1(t, n, ops, psi, [('m', (), slice(2, None)), ('reset', (), (q[0],)), ('h', (), q[1])])
            one1(t, n, ops, psi, [('reset', (), slice(None, 2, -1)), ('u3', (.3, .8, -.2), q[2]), ('m', (), (n - 1, 0, n // 2))])
            one1(t, n, ops, psi, [('m', (), -1), ('m', (), tuple(q) * 2), ('reset', (), q[0])])
        for n, d in ((4, 300), (9, 150), (12, 60), (14, 30)): classical(t, n, d)
        for n, q in ((8, 7), (10, 5)):
            ops, psi = prep(n, r)
            for g in ('m', 'reset'): frac(t, n, ops, psi, g, q, 21)
        chi(t, 2, *prep(2, r), [('m', (), 0), ('h', (), 0), ('m', (), slice(None))], 9000)
        chi(t, 8, *prep(8, r), [('m', (), (0, 7)), ('h', (), 0), ('m', (), (3, 0))], 1500)
    t.guard('large registers', large)
def one1(t, n, ops, psi, tail):
    """branches pruned by the record where it tells the outcome"""
    t.case((n, repr(tail)))
    v, key = after(ops, n, tail)
    lst = [(g, ps, q) for g, ps, tg in tail for q in (O.targets(tg, n) if g in ('m', 'reset') else [tg])]
    beam = [psi]
    for k, (g, ps, q) in enumerate(lst):
        if g not in ('m', 'reset'): beam = [O.run([(g, ps, q)], n, s) for s in beam]; continue
        known = g == 'm' and ('m', (), q) not in lst[k + 1:]
        nb = []
        for s in beam:
            for w in ((int(key[q]),) if known else (0, 1)):
                x = proj(s, n, q, w); pr = np.linalg.norm(x)
                if pr > 1e-7: nb.append(O.apply(x / pr, O.X, [q], n) if g == 'reset' and w else x / pr)
        beam = nb
    if any(key[q] != '0' for q in range(n) if ('m', (), q) not in lst): t.fail('a qubit never measured has a record', (n, tail))
    if not any(O.phase_close(v, s, 1e-7) for s in beam): t.fail('the state is not a branch with the recorded bits %s' % key, (n, tail))
def classical(t, n, d):
    """basis states only: everything is certain"""
    ops = []; st = [0] * n; cr = [0] * n
    for _ in range(d):
        g = t.rng.choice(['x', 'cx', 'ccx', 'm', 'm', 'reset', 'swap'])
        k = {'cx': 2, 'swap': 2, 'ccx': 3}.get(g, 1)
        q = t.rng.sample(range(n), k); ops.append((g, (), tuple(q) if k > 1 else q[0]))
        if g == 'x': st[q[0]] ^= 1
        elif g == 'cx': st[q[1]] ^= st[q[0]]
        elif g == 'ccx': st[q[2]] ^= st[q[0]] & st[q[1]]
        elif g == 'swap': st[q[0]], st[q[1]] = st[q[1]], st[q[0]]
        elif g == 'm': cr[q[0]] = st[q[0]]
        else: st[q[0]] = 0
    t.case((n, d))
    c = O.build(Circuit, ops, n); want = ''.join(map(str, cr))
    v, cnt = c.run(shots=2, returns='statevector_and_shots')
    if dict(cnt) != {want: 2}: t.fail('records %r, all outcomes are certain: %s' % (dict(cnt), want), (n, ops))
    if abs(abs(v[sum(b << q for q, b in enumerate(st))]) - 1) > 1e-7: t.fail('state of a circuit with certain outcomes', (n, ops))
