"""Independent matrices of Pauli operators, read off the public fields."""
import numpy as np, random
import oracle as O
from blueqat import pauli as P
M1 = {'I': O.I2, 'X': O.X, 'Y': O.Y, 'Z': O.Z}
def terms(e):
    """-> list of (coeff, [(letter, qubit)]) of any operator, term or expression"""
    if isinstance(e, P.Expr): return [(t.coeff, [(o.op, getattr(o, 'n', 0)) for o in t.ops]) for t in e.terms]
    if isinstance(e, P.Term): return [(e.coeff, [(o.op, getattr(o, 'n', 0)) for o in e.ops])]
    return [(1.0, [] if e.op == 'I' else [(e.op, e.n)])]
def qubits(*es): return sorted({q for e in es for _, l in terms(e) for _, q in l})
def mat(e, qs):
    """matrix on the listed qubits, qs[0] least significant"""
    n = len(qs); out = np.zeros((2 ** n, 2 ** n), complex)
    for c, l in terms(e):
        m = np.eye(2 ** n, dtype=complex)
        for ch, q in l:
            if ch == 'I': continue
            k = qs.index(q); f = np.array([[1]])
            for i in range(n): f = np.kron(M1[ch] if i == k else O.I2, f)
            m = m @ f
        out += c * m
    return out
def rnum(rng, cplx=True):
    d = [1, 2, -1, .5, -.25, 3, 1.5, -2.0]
    if cplx: d += [1j, -.5j, 1 + 1j, 2 - .5j]
    return rng.choice(d)
def rop(rng, qs): return rng.choice([P.X, P.Y, P.Z])[rng.choice(qs)] if rng.random() < .9 else P.I
def rterm(rng, qs, cplx=True, raw=.5):
    ops = tuple(o for o in (rop(rng, qs) for _ in range(rng.randint(0, 5))) if o.op != 'I')
    if rng.random() < raw: return P.Term(ops, rnum(rng, cplx))
    t = rnum(rng, cplx) * P.I
    for o in ops: t = t * o
    return t
def rexpr(rng, qs, cplx=True, k=None):
    return P.Expr(tuple(rterm(rng, qs, cplx) for _ in range(rng.randint(0, 4) if k is None else k)))
def rany(rng, qs, cplx=True):
    return rng.choice([rop, lambda r, q: rterm(r, q, cplx), lambda r, q: rexpr(r, q, cplx)])(rng, qs)
PM = {('X', 'Y'): (1j, 'Z'), ('Y', 'Z'): (1j, 'X'), ('Z', 'X'): (1j, 'Y'), ('Y', 'X'): (-1j, 'Z'), ('Z', 'Y'): (-1j, 'X'), ('X', 'Z'): (-1j, 'Y')}
def word(l):
    """product of letters on any qubits -> (phase, canonical word)"""
    ph, d = 1, {}
    for ch, q in l:
        if ch == 'I': continue
        a = d.pop(q, None)
        if a is None: d[q] = ch
        elif a != ch: f, c = PM[a, ch]; ph *= f; d[q] = c
    return ph, tuple(sorted((q, c) for q, c in d.items()))
def normal(e):
    """an operator of any size as word -> coefficient"""
    out = {}
    for c, l in terms(e):
        f, w = word(l); out[w] = out.get(w, 0) + c * f
    return {w: c for w, c in out.items() if abs(c) > 1e-9}
def nmul(a, b):
    out = {}
    for u, c in a.items():
        for v, d in b.items():
            f, w = word([(ch, q) for q, ch in u] + [(ch, q) for q, ch in v]); out[w] = out.get(w, 0) + c * d * f
    return {w: c for w, c in out.items() if abs(c) > 1e-9}
def nadd(a, b, k=1):
    out = dict(a)
    for w, c in b.items(): out[w] = out.get(w, 0) + k * c
    return {w: c for w, c in out.items() if abs(c) > 1e-9}
def nsame(a, b): return all(abs(a.get(w, 0) - b.get(w, 0)) < 1e-7 * (1 + abs(a.get(w, 0))) for w in set(a) | set(b))
def lterm(rng, n, k): return P.Term(tuple(rng.choice([P.X, P.Y, P.Z])[rng.randrange(n)] for _ in range(k)), rnum(rng))
def act(e, psi, n):
    """the operator applied to a state"""
    out = np.zeros(2 ** n, complex)
    for c, l in terms(e):
        v = psi
        for ch, q in reversed(l):
            if ch != 'I': v = O.apply(v, M1[ch], [q], n)
        out = out + c * v
    return out
