"""The mathematical meaning of every gate, written independently of the code.

A gate's meaning is a 2^k x 2^k matrix over its qubits (first qubit = the most
significant bit of the matrix index).  Conventions (from the documentation):
rz = diag(e^{-ia/2}, e^{ia/2}); u1 = rz; u2, u3 in SU(2); phase = diag(1, e^{ia});
controlled gates put the control first."""
import sys, os
from fractions import Fraction as Q
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from engine import alg
from engine.alg import Alg, I, cos, sin, exp_i, sqrt

ONE = Alg.of(1); ZERO = Alg.of(0)
H2 = Q(1, 2)
def m2(a, b, c, d): return [[Alg.of(a), Alg.of(b)], [Alg.of(c), Alg.of(d)]]
def mat_i(): return m2(1, 0, 0, 1)
def mat_x(): return m2(0, 1, 1, 0)
def mat_y(): return m2(0, -I, I, 0)
def mat_z(): return m2(1, 0, 0, -1)
def mat_h():
    s = sqrt(Alg.of(2)) * H2
    return m2(s, s, s, -s)
def mat_phase(t): return m2(1, 0, 0, exp_i(Alg.of(t)))
def mat_t(): return mat_phase(alg.PI * Q(1, 4))
def mat_tdg(): return mat_phase(alg.PI * Q(-1, 4))
def mat_s(): return m2(1, 0, 0, I)
def mat_sdg(): return m2(1, 0, 0, -I)
def mat_rx(t): c, s = cos(t * H2), sin(t * H2); return m2(c, -I * s, -I * s, c)
def mat_ry(t): c, s = cos(t * H2), sin(t * H2); return m2(c, -s, s, c)
def mat_rz(t): return m2(exp_i(t * -H2), 0, 0, exp_i(t * H2))
def mat_u3(t, p, l):
    c, s = cos(t * H2), sin(t * H2)
    return m2(exp_i((p + l) * -H2) * c, -exp_i((p - l) * -H2) * s, exp_i((p - l) * H2) * s, exp_i((p + l) * H2) * c)
def mat_u2(p, l): return mat_u3(alg.PI * H2, p, l)
def mat_u1(l): return mat_rz(l)

def eye(n): return [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]
def ctrl(m):
    n = len(m)
    out = eye(2 * n)
    for i in range(n):
        for j in range(n): out[n + i][n + j] = m[i][j]
    return out
def kron(a, b):
    n, m = len(a), len(b)
    return [[a[i // m][j // m] * b[i % m][j % m] for j in range(n * m)] for i in range(n * m)]
def mul(a, b):
    n = len(a)
    out = []
    for i in range(n):
        row = []
        for j in range(n):
            s = ZERO
            for k in range(n):
                if a[i][k].t and b[k][j].t: s = s + a[i][k] * b[k][j]
            row.append(s)
        out.append(row)
    return out
def dag(a):
    n = len(a)
    return [[a[j][i].conjugate() for j in range(n)] for i in range(n)]
def scale(c, a): return [[c * x for x in r] for r in a]
def madd(a, b): return [[x + y for x, y in zip(r, s)] for r, s in zip(a, b)]
def rpp(m, t):
    "exp(-i t/2 m(x)m)"
    mm = kron(m, m)
    return madd(scale(cos(t * H2), eye(4)), scale(-I * sin(t * H2), mm))
SWAP = [[1,0,0,0],[0,0,1,0],[0,1,0,0],[0,0,0,1]]
def mat_swap(): return [[Alg.of(x) for x in r] for r in SWAP]

# lowername -> (number of qubits, number of parameters, matrix)
GATES = {
 'i': (1, 0, mat_i), 'x': (1, 0, mat_x), 'y': (1, 0, mat_y), 'z': (1, 0, mat_z), 'h': (1, 0, mat_h),
 't': (1, 0, mat_t), 'tdg': (1, 0, mat_tdg), 's': (1, 0, mat_s), 'sdg': (1, 0, mat_sdg),
 'rx': (1, 1, mat_rx), 'ry': (1, 1, mat_ry), 'rz': (1, 1, mat_rz), 'phase': (1, 1, mat_phase),
 'u1': (1, 1, mat_u1), 'u2': (1, 2, mat_u2), 'u3': (1, 3, mat_u3),
 'cx': (2, 0, lambda: ctrl(mat_x())), 'cy': (2, 0, lambda: ctrl(mat_y())), 'cz': (2, 0, lambda: ctrl(mat_z())),
 'ch': (2, 0, lambda: ctrl(mat_h())),
 'crx': (2, 1, lambda t: ctrl(mat_rx(t))), 'cry': (2, 1, lambda t: ctrl(mat_ry(t))), 'crz': (2, 1, lambda t: ctrl(mat_rz(t))),
 'cphase': (2, 1, lambda t: ctrl(mat_phase(t))), 'cu1': (2, 1, lambda t: ctrl(mat_phase(t))),
 'cu2': (2, 2, lambda p, l: ctrl(mat_u2(p, l))), 'cu3': (2, 3, lambda t, p, l: ctrl(mat_u3(t, p, l))),
 'rxx': (2, 1, lambda t: rpp(mat_x(), t)), 'ryy': (2, 1, lambda t: rpp(mat_y(), t)), 'rzz': (2, 1, lambda t: rpp(mat_z(), t)),
 'swap': (2, 0, mat_swap),
 'ccx': (3, 0, lambda: ctrl(ctrl(mat_x()))), 'ccz': (3, 0, lambda: ctrl(ctrl(mat_z()))), 'cswap': (3, 0, lambda: ctrl(mat_swap())),
}
# attribute / constructor argument names are read from the public constructor order
CLASSES = {
 'i': 'IGate', 'x': 'XGate', 'y': 'YGate', 'z': 'ZGate', 'h': 'HGate', 't': 'TGate', 'tdg': 'TDagGate', 's': 'SGate', 'sdg': 'SDagGate',
 'rx': 'RXGate', 'ry': 'RYGate', 'rz': 'RZGate', 'phase': 'PhaseGate', 'u1': 'U1Gate', 'u2': 'U2Gate', 'u3': 'U3Gate',
 'cx': 'CXGate', 'cy': 'CYGate', 'cz': 'CZGate', 'ch': 'CHGate', 'crx': 'CRXGate', 'cry': 'CRYGate', 'crz': 'CRZGate',
 'cphase': 'CPhaseGate', 'cu1': 'CU1Gate', 'cu2': 'CU2Gate', 'cu3': 'CU3Gate', 'rxx': 'RXXGate', 'ryy': 'RYYGate', 'rzz': 'RZZGate',
 'swap': 'SwapGate', 'ccx': 'ToffoliGate', 'ccz': 'CCZGate', 'cswap': 'CSwapGate', 'measure': 'Measurement', 'reset': 'Reset',
}
PARAMS = ['a', 'b', 'c']
def symbolic_params(n): return [alg.rsym('theta_' + PARAMS[i]) for i in range(n)]

def embed(m, qs, k):
    """matrix m on the listed qubits (positions 0..k-1, 0 = most significant) of a k-qubit register"""
    n = 2 ** k; r = len(qs)
    out = [[ZERO] * n for _ in range(n)]
    def bits(x): return [(x >> (k - 1 - q)) & 1 for q in range(k)]
    for i in range(n):
        bi = bits(i)
        mi = 0
        for q in qs: mi = mi * 2 + bi[q]
        for mj in range(2 ** r):
            bj = list(bi)
            for p, q in enumerate(qs): bj[q] = (mj >> (r - 1 - p)) & 1
            j = 0
            for b in bj: j = j * 2 + b
            out[i][j] = m[mi][mj]
    return out
def mat_eq(a, b, norm=lambda x: x):
    return all(norm(x - y).is_zero() for r, s in zip(a, b) for x, y in zip(r, s))
def phase_equal(a, b, norm=lambda x: x):
    """a = (unit scalar) * b : a b^dagger is a unit multiple of the identity"""
    p = mul(a, dag(b))
    n = len(p)
    for i in range(n):
        for j in range(n):
            if i != j and not norm(p[i][j]).is_zero(): return False
            if i == j and not norm(p[i][i] - p[0][0]).is_zero(): return False
    return norm(p[0][0] * p[0][0].conjugate() - ONE).is_zero()
