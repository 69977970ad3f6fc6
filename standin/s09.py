import re, math, numpy as np
import oracle as O
from blueqat import Circuit
# qelib1.inc of the OpenQASM 2.0 paper
def U(t, p, l): return np.array([[math.cos(t / 2), -np.exp(1j * l) * math.sin(t / 2)], [np.exp(1j * p) * math.sin(t / 2), np.exp(1j * (p + l)) * math.cos(t / 2)]])
def ph(t): return np.diag([1, np.exp(1j * t)])
CX = O.ctrl(O.X)
def seq(k, *steps):
    m = np.eye(2 ** k, dtype=complex)
    for g, qs in steps:
        # qelib1 argument a is the most significant of the little matrix
        m = np.stack([O.apply(e, g, [k - 1 - q for q in qs], k) for e in m.T], axis=1)
    return m
STD = {'id': (0, 1, lambda: O.I2), 'x': (0, 1, lambda: U(math.pi, 0, math.pi)), 'y': (0, 1, lambda: U(math.pi, math.pi / 2, math.pi / 2)), 'z': (0, 1, lambda: ph(math.pi)), 'h': (0, 1, lambda: U(math.pi / 2, 0, math.pi)),
 's': (0, 1, lambda: ph(math.pi / 2)), 'sdg': (0, 1, lambda: ph(-math.pi / 2)), 't': (0, 1, lambda: ph(math.pi / 4)), 'tdg': (0, 1, lambda: ph(-math.pi / 4)),
 'rx': (1, 1, lambda t: U(t, -math.pi / 2, math.pi / 2)), 'ry': (1, 1, lambda t: U(t, 0, 0)), 'rz': (1, 1, ph), 'u1': (1, 1, ph), 'u2': (2, 1, lambda p, l: U(math.pi / 2, p, l)), 'u3': (3, 1, U),
 'cx': (0, 2, lambda: CX), 'cy': (0, 2, lambda: O.ctrl(O.Y)), 'cz': (0, 2, lambda: O.ctrl(O.Z)), 'ch': (0, 2, lambda: O.ctrl(O.H)), 'swap': (0, 2, lambda: O.SW),
 'ccx': (0, 3, lambda: O.ctrl(CX)), 'cswap': (0, 3, lambda: O.ctrl(O.SW)),
 'crz': (1, 2, lambda t: O.ctrl(O.rz(t))), 'cu1': (1, 2, lambda t: O.ctrl(ph(t))), 'rzz': (1, 2, lambda t: O.rpp(O.Z, t)),
 'crx': (1, 2, lambda t: O.ctrl(O.rx(t))), 'cry': (1, 2, lambda t: O.ctrl(O.ry(t))), 'rxx': (1, 2, lambda t: O.rpp(O.X, t)),
 'cu3': (3, 2, lambda t, p, l: seq(2, (ph((l - p) / 2), [1]), (CX, [0, 1]), (U(-t / 2, 0, -(p + l) / 2), [1]), (CX, [0, 1]), (U(t / 2, p, 0), [1]))),
 # not in qelib1.inc (known finding); meant as cu3(pi/2, phi, lambda)
 'cu2': (2, 2, lambda p, l: seq(2, (ph((l - p) / 2), [1]), (CX, [0, 1]), (U(-math.pi / 4, 0, -(p + l) / 2), [1]), (CX, [0, 1]), (U(math.pi / 4, p, 0), [1])))}
def value(s):
    s = s.strip()
    try: return float(s)
    except ValueError: pass
    if not re.fullmatch(r'[\d.eE+\-*/() pi]+', s): raise ValueError('parameter %r' % s)
    return float(eval(s, {'__builtins__': {}}, {'pi': math.pi}))
class Bad(Exception): pass
def parse(text, prologue=True):
    """-> (n, list of ('gate', matrix, qubits) / ('measure', q, c) / ('reset', q))"""
    lines = text.split('\n')
    text = '\n'.join(l.split('//')[0] for l in lines)
    st = [s.strip() for s in text.split(';')]
    if st[-1]: raise Bad('statement without semicolon: ' + st[-1])
    st = st[:-1]; nq = nc = None; out = []
    if prologue:
        if st[0] != 'OPENQASM 2.0': raise Bad('no version')
        if st[1] != 'include "qelib1.inc"': raise Bad('no include')
        st = st[2:]
    for s in st:
        m = re.fullmatch(r'(qreg|creg) ([a-z]\w*)\[(\d+)\]', s)
        if m:
            if m[1] == 'qreg': nq = int(m[3]); qn = m[2]
            else: nc = int(m[3]); cn = m[2]
            continue
        m = re.fullmatch(r'measure q\[(\d+)\] *-> *c\[(\d+)\]', s)
        if m: out.append(('measure', int(m[1]), int(m[2]))); continue
        m = re.fullmatch(r'reset q\[(\d+)\]', s)
        if m: out.append(('reset', int(m[1]))); continue
        m = re.fullmatch(r'([a-z]\w*)(?:\((.*)\))? +((?:q\[\d+\] *, *)*q\[\d+\])', s)
        if not m: raise Bad('statement %r' % s)
        g = m[1]
        if g not in STD: raise Bad('unknown gate %r' % g)
        np_, k, f = STD[g]
        ps = [value(x) for x in m[2].split(',')] if m[2] is not None else []
        qs = [int(x) for x in re.findall(r'q\[(\d+)\]', m[3])]
        if len(ps) != np_ or len(qs) != k or len(set(qs)) != k: raise Bad('statement %r' % s)
        out.append(('gate', f(*ps), qs))
    if prologue and (nq is None or nc is None): raise Bad('no register')
    if prologue and (nq != nc): raise Bad('register sizes %r %r' % (nq, nc))
    return nq, out
def run(items, n, psi): 
    for it in items:
        if it[0] == 'gate': psi = O.apply(psi, it[1], it[2], n)
        else: raise Bad('not unitary')
    return psi
def events(ops, n):
    out = []
    for g, ps, tg in ops:
        if g in ('m', 'measure'): out += [('measure', q, q) for q in O.targets(tg, n)]
        elif g == 'reset': out += [('reset', q) for q in O.targets(tg, n)]
    return out
def one(t, n, ops, r):
    inp = (n, ops); t.case((n, repr(ops)))
    c = O.build(Circuit, ops, n); before = repr(c)
    text = c.to_qasm()
    if repr(c) != before: t.fail('writing the text changed the circuit', inp)
    try: m, items = parse(text)
    except Exception as e: t.fail('not valid OpenQASM: %s' % e, inp + (text[-300:],)); return
    if m != n: t.fail('register of %d qubits' % m, inp)
    if any(q >= n for it in items for q in (it[2] if it[0] == 'gate' else it[1:])): t.fail('index out of the register', inp); return
    if c.to_qasm() != text: t.fail('writing again gives another text', inp)
    body = c.to_qasm(output_prologue=False)
    head = 'OPENQASM 2.0;\ninclude "qelib1.inc";\nqreg q[%d];\ncreg c[%d];' % (n, n)
    if text.split() != (head + '\n' + body).split(): t.fail('text without prologue is not the rest of the text', inp + (body[:200],))
    if c.run(backend='qasm_output') != text or c.run_with_qasm_output() != text: t.fail('ways to ask for the text disagree', inp)
    # compare segment by segment between measurements and resets
    segs = [[]]; ev = []
    for it in items:
        if it[0] == 'gate': segs[-1].append(it)
        else: ev.append(it); segs.append([])
    want = [[]]; wev = []
    for o in ops:
        if o[0] in ('m', 'measure', 'reset'):
            for e in events([o], n): wev.append(e); want.append([])
        else: want[-1].append(o)
    if ev != wev: t.fail('measurements and resets are %r' % (ev,), inp); return
    psi = O.rstate(r, n)
    for a, b in zip(segs, want):
        if not O.phase_close(run(a, n, psi), O.run(b, n, psi), 1e-7): t.fail('the text does not mean the circuit', inp + (text[-400:],)); return
        phi = O.rstate(r, n)
        if not O.phase_close(run(a, n, phi), O.run(b, n, phi), 1e-7): t.fail('the text does not mean the circuit', inp + (text[-400:],)); return
    # one global phase for the whole unitary
    if len(segs) == 1 and n <= 4 and n and not any(o[0] in ('m', 'measure', 'reset') for o in ops):
        V = np.stack([run(segs[0], n, e) for e in np.eye(2 ** n, dtype=complex)], axis=1)
        if not O.phase_close(V, O.unitary(ops, n), 1e-7): t.fail('the text does not mean the circuit', inp + (text[-400:],))
def check(t):
    t.rule = 'every gate with a text form; random circuits with measurements and resets; interpreter for qelib1.inc'
    t.bounds = ['registers of at most 5 qubits, at most 12 operations (13 qubits, 150 operations for a few; wider ones by statement)']
    r = np.random.RandomState(t.seed)
    names = [g for g in O.G if g != 'ccz']
    def gates():
        for g in names:
            k, p, _ = O.G[g]
            for i in range(len(O.ANGLES) if p else 4):
                n = t.rng.randint(k, 4)
                ps = tuple([O.ANGLES[i]] + [O.rangle(t.rng) for _ in range(p - 1)]) if p else ()
                one(t, n, [(g, ps, (t.rng.sample(range(n), k) if k > 1 else [t.rng.randrange(n)])[0] if k == 1 else tuple(t.rng.sample(range(n), k)))], r)
            one(t, 4, [O.rop(t.rng, 4, [g]) for _ in range(3)], r)
        for v in (1e-7, 1e-20, 1e20, 123456.789, -2.5e-9, 3, -1, np.float64(.1), np.pi):
            if abs(v) < 1e9: one(t, 2, [('rx', (v,), 0), ('u3', (v, .1, -v), 1), ('cu1', (v,), (0, 1)), ('phase', (v,), 1)], r)
            # written value reads back as the same number
            tx = Circuit(1).rz(v)[0].to_qasm(output_prologue=False)
            got = value(re.search(r'\((.*)\)', tx)[1])
            if got != float(v): t.fail('parameter %r is written as %r' % (v, tx), repr(v))
    t.guard('gates', gates)
    def rnd():
        for _ in range(500 if t.thorough else 160):
            n = t.rng.randint(1, 5)
            ops = O.rcircuit(t.rng, n, t.rng.randint(0, 12), names)
            one(t, n, ops, r)
            for _ in range(t.rng.randint(1, 4)): ops.insert(t.rng.randint(0, len(ops)), (t.rng.choice(['m', 'measure', 'reset']), (), O.rtarget1(t.rng, n)))
            one(t, n, ops, r)
        one(t, 1, [], r); one(t, 12, [('x', (), 11), ('m', (), slice(None)), ('cx', (), (10, 3))], r)
        for n, d in ((3, 150), (9, 40), (12, 25), (13, 12)):
            ops = O.rcircuit(t.rng, n, d, names); one(t, n, ops, r)
            for _ in range(12): ops.insert(t.rng.randint(0, len(ops)), (t.rng.choice(['m', 'measure', 'reset']), (), t.rng.randrange(n)))
            one(t, n, ops, r)
        # registers too wide for a state: the statements themselves
        for n in (40, 130, 1200):
            t.case(('wide', n)); tx = Circuit(n).x[:].cx[n - 1, 0].m[n - 2].reset[-1].rz(.5)[n // 2, 3].m[::-1].to_qasm()
            want = ['x q[%d]' % k for k in range(n)] + ['cx q[%d],q[0]' % (n - 1), 'measure q[%d] -> c[%d]' % (n - 2, n - 2), 'reset q[%d]' % (n - 1), 'rz(0.5) q[%d]' % (n // 2), 'rz(0.5) q[3]'] + ['measure q[%d] -> c[%d]' % (k, k) for k in range(n - 1, -1, -1)]
            got = [re.sub(r' *(,|->) *', r'\1', ' '.join(s.split())) for s in tx.split(';')]
            if [x for x in got if x] != [re.sub(r' *(,|->) *', r'\1', x) for x in ['OPENQASM 2.0', 'include "qelib1.inc"', 'qreg q[%d]' % n, 'creg c[%d]' % n] + want]: t.fail('text of a wide register', (n, tx[:200]))
    t.guard('random circuits', rnd)
    def hist():
        for _ in range(25):
            for c, ops, n in O.history(t.rng, Circuit, 12, 5, [g for g in names if g != 'cu2']):
                t.case(('history', n, repr(ops))); tx = c.to_qasm()
                try: m, items = parse(tx); V = np.stack([run(items, m, e) for e in np.eye(2 ** n, dtype=complex)], axis=1)
                except Bad as e: t.fail('a circuit changed step by step: %s' % e, (n, ops, tx[-300:])); break
                if m != n or not O.phase_close(V, O.unitary(ops, n), 1e-7): t.fail('a circuit changed step by step: the text does not mean the circuit', (n, ops, tx[-300:])); break
                if c.to_qasm(output_prologue=False) not in tx: t.fail('text without prologue', (n, ops)); break
    t.guard('histories', hist)
    def finding():
        tx = Circuit(2).cu2(.1, .2)[0, 1].to_qasm()
        if re.search(r'\bcu2\b', tx): t.fail('cu2 is not defined by qelib1.inc', 'Circuit(2).cu2(.1, .2)[0, 1]', 'cu2-not-in-qelib1')
    t.guard('finding', finding)
    def qk():
        try:
            from qiskit import QuantumCircuit
            from qiskit.quantum_info import Operator
        except Exception: return
        for _ in range(40):
            n = t.rng.randint(1, 4); ops = O.rcircuit(t.rng, n, t.rng.randint(1, 8), [g for g in names if g not in ('cu2', 'cu3', 'ch')])
            # decompositions may not use cu3 either
            text = O.build(Circuit, ops, n).to_qasm(); t.case(('qiskit', n, repr(ops)))
            if 'cu3' in text or 'cu2' in text: continue
            try: M = Operator(QuantumCircuit.from_qasm_str(text)).data
            except Exception as e: t.fail('not accepted by another OpenQASM reader: %s' % e, (n, ops)); continue
            if not O.phase_close(M, O.unitary(ops, n), 1e-7): t.fail('another reader gives another unitary', (n, ops))
    t.guard('second reader', qk)
