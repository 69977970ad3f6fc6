"""Independent reference semantics (numpy), written from the documentation, not the code."""
import numpy as np, math, cmath
X = np.array([[0, 1], [1, 0]], complex); Y = np.array([[0, -1j], [1j, 0]]); Z = np.diag([1, -1]).astype(complex); I2 = np.eye(2, dtype=complex)
H = np.array([[1, 1], [1, -1]]) / math.sqrt(2) + 0j
def phase(t): return np.diag([1, cmath.exp(1j * t)])
def rx(t): return np.cos(t / 2) * I2 - 1j * np.sin(t / 2) * X
def ry(t): return np.cos(t / 2) * I2 - 1j * np.sin(t / 2) * Y
def rz(t): return np.cos(t / 2) * I2 - 1j * np.sin(t / 2) * Z
def u3(t, p, l): return rz(p) @ ry(t) @ rz(l)
def ctrl(m):
    n = len(m); o = np.eye(2 * n, dtype=complex); o[n:, n:] = m; return o
def rpp(p, t):
    pp = np.kron(p, p); return np.cos(t / 2) * np.eye(4) - 1j * np.sin(t / 2) * pp
SW = np.eye(4, dtype=complex)[[0, 2, 1, 3]]
G = {  # name: (qubits, params, matrix), first qubit = most significant
 'i': (1, 0, lambda: I2), 'x': (1, 0, lambda: X), 'y': (1, 0, lambda: Y), 'z': (1, 0, lambda: Z), 'h': (1, 0, lambda: H),
 't': (1, 0, lambda: phase(math.pi / 4)), 'tdg': (1, 0, lambda: phase(-math.pi / 4)), 's': (1, 0, lambda: phase(math.pi / 2)), 'sdg': (1, 0, lambda: phase(-math.pi / 2)),
 'rx': (1, 1, rx), 'ry': (1, 1, ry), 'rz': (1, 1, rz), 'phase': (1, 1, phase), 'u1': (1, 1, rz), 'u2': (1, 2, lambda p, l: u3(math.pi / 2, p, l)), 'u3': (1, 3, u3),
 'cx': (2, 0, lambda: ctrl(X)), 'cy': (2, 0, lambda: ctrl(Y)), 'cz': (2, 0, lambda: ctrl(Z)), 'ch': (2, 0, lambda: ctrl(H)),
 'crx': (2, 1, lambda t: ctrl(rx(t))), 'cry': (2, 1, lambda t: ctrl(ry(t))), 'crz': (2, 1, lambda t: ctrl(rz(t))),
 'cphase': (2, 1, lambda t: ctrl(phase(t))), 'cu1': (2, 1, lambda t: ctrl(phase(t))),
 'cu2': (2, 2, lambda p, l: ctrl(u3(math.pi / 2, p, l))), 'cu3': (2, 3, lambda t, p, l: ctrl(u3(t, p, l))),
 'rxx': (2, 1, lambda t: rpp(X, t)), 'ryy': (2, 1, lambda t: rpp(Y, t)), 'rzz': (2, 1, lambda t: rpp(Z, t)), 'swap': (2, 0, lambda: SW),
 'ccx': (3, 0, lambda: ctrl(ctrl(X))), 'ccz': (3, 0, lambda: ctrl(ctrl(Z))), 'cswap': (3, 0, lambda: ctrl(SW)),
}
CLS = {'i': 'IGate', 'x': 'XGate', 'y': 'YGate', 'z': 'ZGate', 'h': 'HGate', 't': 'TGate', 'tdg': 'TDagGate', 's': 'SGate', 'sdg': 'SDagGate',
 'rx': 'RXGate', 'ry': 'RYGate', 'rz': 'RZGate', 'phase': 'PhaseGate', 'u1': 'U1Gate', 'u2': 'U2Gate', 'u3': 'U3Gate',
 'cx': 'CXGate', 'cy': 'CYGate', 'cz': 'CZGate', 'ch': 'CHGate', 'crx': 'CRXGate', 'cry': 'CRYGate', 'crz': 'CRZGate',
 'cphase': 'CPhaseGate', 'cu1': 'CU1Gate', 'cu2': 'CU2Gate', 'cu3': 'CU3Gate', 'rxx': 'RXXGate', 'ryy': 'RYYGate', 'rzz': 'RZZGate',
 'swap': 'SwapGate', 'ccx': 'ToffoliGate', 'ccz': 'CCZGate', 'cswap': 'CSwapGate', 'measure': 'Measurement', 'reset': 'Reset'}
ALIAS = {'x': ['x'], 'cx': ['cx', 'cnot'], 'phase': ['phase', 'r'], 'cphase': ['cphase', 'cr'], 'ccx': ['ccx', 'toffoli'], 'measure': ['m', 'measure']}
def apply(psi, m, qs, n):
    """apply matrix m to qubits qs of an n-qubit state; qubit q is bit q of the index"""
    k = len(qs)
    v = np.asarray(psi, complex).reshape((2,) * n)         # axis a is qubit n-1-a
    ax = [n - 1 - q for q in qs]
    v = np.moveaxis(v, ax, range(k))
    sh = v.shape
    v = (m @ v.reshape(2 ** k, -1)).reshape(sh)
    return np.moveaxis(v, range(k), ax).reshape(-1)
def full(m, qs, n):
    return np.stack([apply(e, m, qs, n) for e in np.eye(2 ** n)], axis=1)
def targets(t, n):
    """Python's own indexing decides what a target specification denotes"""
    if isinstance(t, tuple): return [q for a in t for q in targets(a, n)]
    r = range(n)[t]
    return list(r) if isinstance(t, slice) else [r]
def op_matrix(name, params, tgt, n):
    """list of (matrix, qubits) that one operation denotes on an n-qubit register"""
    k, np_, f = G[name]
    m = f(*params)
    if k == 1: return [(m, [q]) for q in targets(tgt, n)]
    if k == 2:
        a, b = targets(tgt[0], n), targets(tgt[1], n)
        assert len(a) == len(b)
        return [(m, [c, t]) for c, t in zip(a, b)]
    return [(m, [range(n)[q] for q in tgt])]
def run(ops, n, psi=None):
    """ops: list of (name, params, targets)"""
    if psi is None: psi = np.zeros(2 ** n, complex); psi[0] = 1
    for name, params, tgt in ops:
        for m, qs in op_matrix(name, params, tgt, n): psi = apply(psi, m, qs, n)
    return psi
def unitary(ops, n):
    return np.stack([run(ops, n, e) for e in np.eye(2 ** n, dtype=complex)], axis=1) if n else np.eye(1)
def close(a, b, tol=1e-9): 
    a = np.asarray(a); b = np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) < tol))
def phase_close(a, b, tol=1e-9):
    a = np.asarray(a, complex); b = np.asarray(b, complex)
    if a.shape != b.shape: return False
    ip = np.vdot(a.reshape(-1), b.reshape(-1))
    na = np.linalg.norm(a); nb = np.linalg.norm(b)
    if abs(na - nb) > tol * max(1, na): return False
    if na < 1e-14: return True
    return abs(abs(ip) - na * nb) < 1e-8 * max(1, na * nb) and close(a * (ip / abs(ip)), b, 1e-7)
def rstate(np_rng, n):
    v = np_rng.normal(size=2 ** n) + 1j * np_rng.normal(size=2 ** n)
    return v / np.linalg.norm(v)

ANGLES = [0.0, math.pi, -math.pi, math.pi / 2, -math.pi / 2, math.pi / 4, 2 * math.pi, 1.0, -0.7, 0.3, 2.4, -3.9, 5.5, 7.1, 4 * math.pi, 1e-3, 13.2]
def rangle(rng):
    return rng.choice(ANGLES) if rng.random() < .35 else rng.uniform(-7, 7)
def rtarget1(rng, n, allow=('int', 'neg', 'slice', 'tuple')):
    k = rng.choice(allow)
    if k == 'int': return rng.randrange(n)
    if k == 'neg': return -1 - rng.randrange(n)
    if k == 'slice':
        while True:
            a, b = rng.choice([None] + list(range(-n - 1, n + 1))), rng.choice([None] + list(range(-n - 1, n + 1)))
            s = rng.choice([None, None, 1, 2, -1, -2, 3])
            # an explicit positive start/stop may widen the register: keep them inside it
            return slice(a if a is None or a < n else n - 1, b, s)
    parts = [rtarget1(rng, n, ('int', 'neg', 'slice')) for _ in range(rng.choice([1, 2, 2, 3]))]
    return tuple(parts)
def rtarget2(rng, n):
    """a pair specification; also ones with several pairs"""
    for _ in range(60):
        if rng.random() < .6:
            a, b = rng.sample(range(n), 2)
            if rng.random() < .3: a -= n
            if rng.random() < .3: b -= n
            return (a, b)
        a, b = rtarget1(rng, n), rtarget1(rng, n)
        if isinstance(a, tuple) or isinstance(b, tuple): continue
        la, lb = targets(a, n), targets(b, n)
        if len(la) == len(lb) and la and all(x != y for x, y in zip(la, lb)): return (a, b)
    return tuple(rng.sample(range(n), 2))
def rop(rng, n, names=None, simple=False):
    names = [g for g in (names or list(G)) if G[g][0] <= n and g != 'ccz']
    g = rng.choice(names)
    k, p, _ = G[g]
    ps = tuple(rangle(rng) for _ in range(p))
    if simple:
        t = tuple(rng.sample(range(n), k)); t = t[0] if k == 1 else t
    elif k == 1: t = rtarget1(rng, n)
    elif k == 2: t = rtarget2(rng, n)
    else: t = tuple(q - n if rng.random() < .25 else q for q in rng.sample(range(n), k))
    return (g, ps, t)
def rcircuit(rng, n, depth, names=None, simple=False):
    return [rop(rng, n, names, simple) for _ in range(depth)]
def build(Circuit, ops, n):
    c = Circuit(n)
    for g, ps, t in ops:
        w = getattr(c, g)
        if ps: w = w(*ps)
        w[t]
    return c
def valid(op, n):
    g, ps, t = op
    if g in ('m', 'measure', 'reset'): return True
    try: return all(len(set(qs)) == len(qs) and all(0 <= q < n for q in qs) for _, qs in op_matrix(g, ps, t, n))
    except Exception: return False
def history(rng, Circuit, steps, nmax=4, names=None, simple=False):
    """one circuit object with a history: yields (circuit, operations, size) after each change; no operation stays that its register makes invalid"""
    n = rng.randint(1, 2); c = Circuit(n); ops = []
    for _ in range(steps):
        n2 = rng.randint(n, nmax) if rng.random() < .3 else n
        how = rng.choice(['op'] * 5 + ['replace', 'pop', 'sum', 'copy', 'swap'])
        new = rop(rng, n2, names, simple); old = (c, list(ops), n); allops = ops + [new]
        if not all(valid(o, n2) for o in allops): continue
        one = build(Circuit, [new], n2)
        if how in ('op', 'sum') or not ops:
            if how == 'sum': c = c + one if rng.random() < .5 else c.__iadd__(one)
            else:
                if n2 > n: c += Circuit(n2)
                g, ps, t = new; w = getattr(c, g); (w(*ps) if ps else w)[t]
            ops = allops; n = n2
        elif how == 'replace':
            k = rng.randrange(len(ops)); new = rop(rng, n, names, simple); c.ops[k] = build(Circuit, [new], n).ops[0]; ops[k] = new
        elif how == 'pop': k = rng.randrange(len(ops)); c.ops.pop(k); ops.pop(k)
        elif how == 'swap': k = rng.randrange(len(ops)); c.ops[0], c.ops[k] = c.ops[k], c.ops[0]; ops[0], ops[k] = ops[k], ops[0]
        else: c = c.copy()
        assert c.n_qubits == n or c.n_qubits >= n, (c, n)
        n = c.n_qubits
        if all(valid(o, n) for o in ops): yield c, list(ops), n
