import collections, numpy as np, sys
import oracle as O
from blueqat import Circuit, BlueqatGlobalSetting as B
from blueqat.backends.qasm_parser_backend_generator import generate_backend
def check(t):
    t.rule = 'recording runners; Qiskit Aer on basis states and random circuits; replaced execute with prepared counts'
    t.bounds = ['at most 4 qubits, at most 8 operations (122 qubits, 120 operations, 600 counted strings for a few)']
    names = [g for g in O.G if g not in ('ccz', 'cu2', 'cu3')]
    def rec():
        seen = []
        def runner(qasm, *a, **k): seen.append((qasm, a, k)); return ('r', len(seen))
        Bk = generate_backend(runner); b = Bk()
        B.register_backend('rec', Bk)
        try:
            for it in range(150):
                n = t.rng.randint(1, 4) if it > 4 else 30 * it + 2; ops = O.rcircuit(t.rng, n, t.rng.randint(0, 8) if it > 4 else 120, names)
                for _ in range(t.rng.randint(0, 2)): ops.insert(t.rng.randint(0, len(ops)), ('m', (), O.rtarget1(t.rng, n)))
                c = O.build(Circuit, ops, n); a = (1, 'z') if t.rng.random() < .3 else (); k = {'shots': t.rng.randint(1, 99), 'opt': 'v'} if t.rng.random() < .6 else {}
                t.case((n, repr(ops), a, repr(k)))
                fresh = O.build(Circuit, ops, n).to_qasm()
                for f in (lambda: c.run(*a, backend='rec', **k), lambda: c.run(*a, backend=b, **k), lambda: c.run_with_rec(*a, **k)):
                    s = len(seen); r = f()
                    if len(seen) != s + 1 or r != ('r', s + 1): t.fail('the runner is not called once for its result', (n, ops)); continue
                    if seen[-1][0] != fresh: t.fail('the text is not that of the circuit', (n, ops))
                    if seen[-1][1] != a or seen[-1][2] != k: t.fail('options %r instead of %r' % (seen[-1][1:], (a, k)), (n, ops))
        finally: B.unregister_backend('rec')
    t.guard('runner', rec)
    try:
        import qiskit; from qiskit import Aer, QuantumCircuit
    except Exception: return
    def aer():
        for _ in range(14):
            n = t.rng.randint(1, 4); bits = [t.rng.randint(0, 1) for _ in range(n)]; S = t.rng.randint(1, 60)
            c = Circuit(n)
            for q, b in enumerate(bits):
                if b: c.x[q]
            ms = t.rng.sample(range(n), t.rng.randint(1, n)); c.m[tuple(ms)]; t.case(('basis', n, bits, ms, S))
            r = c.run(backend='ibmq', shots=S)
            want = {''.join(str(b) if q in ms else '0' for q, b in enumerate(bits)): S}
            if dict(r) != want: t.fail('counts %r instead of %r' % (dict(r), want), (n, bits, ms))
            if dict(c.run(shots=S)) != want: t.fail('built-in simulator', (n, bits, ms))
            if not isinstance(r, collections.Counter): t.fail('type %s' % type(r).__name__, n)
        for _ in range(12):
            n = t.rng.randint(1, 3); ops = O.rcircuit(t.rng, n, 6, names, simple=True); c = O.build(Circuit, ops, n).m[:]; S = 2000; t.case(('random', n, repr(ops)))
            r = c.run_with_ibmq(shots=S); p = np.abs(O.run(ops, n)) ** 2
            if sum(r.values()) != S: t.fail('%d counts' % sum(r.values()), (n, ops))
            for i in range(2 ** n):
                k = ''.join(str(i >> q & 1) for q in range(n))
                if abs(r.get(k, 0) - S * p[i]) > 7 * np.sqrt(S * p[i] * (1 - p[i])) + 8: t.fail('%s counted %d of %d, probability %.4f' % (k, r.get(k, 0), S, p[i]), (n, ops))
        if sum(Circuit(1).h[0].m[0].run(backend='ibmq').values()) != 1024: t.fail('default number of shots', 1024)
    t.guard('aer', aer)
    def kinds():
        from qiskit.quantum_info import Operator
        from qiskit.providers import JobV1
        from qiskit.result import Result
        for _ in range(5):
            n = t.rng.randint(1, 3); ops = O.rcircuit(t.rng, n, 5, names, simple=True); c = O.build(Circuit, ops, n); t.case(('kinds', n, repr(ops)))
            q = c.run(backend='ibmq', returns='qiskit_circuit')
            if not isinstance(q, QuantumCircuit) or q.num_qubits != n or q.num_clbits != n: t.fail('qiskit_circuit', (n, ops))
            elif not O.phase_close(Operator(q).data, O.unitary(ops, n), 1e-7): t.fail('qiskit_circuit is another circuit', (n, ops))
            d = c.run(backend='ibmq', returns='draw'); 
            if str(d) != str(q.draw()): t.fail('draw', (n, ops))
            if str(c.run(backend='ibmq', returns='draw', output='text')) != str(q.draw(output='text')): t.fail('options of draw', (n, ops))
            c.m[:]
            j = c.run(backend='ibmq', returns='qiskit_job', shots=17)
            if not hasattr(j, 'result') or sum(j.result().get_counts().values()) != 17: t.fail('qiskit_job', (n, ops))
            r = c.run(backend='ibmq', returns='qiskit_result', shots=19)
            if not isinstance(r, Result) or sum(r.get_counts().values()) != 19: t.fail('qiskit_result', (n, ops))
            s = c.run(backend='ibmq', returns='shots', shots=5)
            if sum(s.values()) != 5 or any(len(k) != n for k in s): t.fail('shots', (n, ops))
            b = Aer.get_backend('qasm_simulator')
            r1 = c.run(backend='ibmq', qiskit_backend=b, shots=100, seed_simulator=11, returns='qiskit_result').get_counts(); r2 = c.run(backend='ibmq', qiskit_backend=b, shots=100, seed_simulator=11)
            if {k[::-1]: v for k, v in r1.items()} != dict(r2): t.fail('counts are not those of the job in blueqat order', (n, ops))
        if Circuit(1).x[0].run(backend='ibmq', returns='_exception') is not None: t.fail('_exception', 'available')
        for bad in ('statevector', 'Shots', '', 'qiskit', 'counts', 5):
            t.case(('bad', bad))
            try: Circuit(1).m[0].run(backend='ibmq', returns=bad)
            except ValueError: pass
            else: t.fail('returns=%r is accepted' % (bad,), bad)
    t.guard('kinds', kinds)
    def fake():
        if not hasattr(qiskit, 'execute'): return
        old = qiskit.execute; hit = []
        class J:
            def __init__(s, c): s.c = c
            def result(s): return s
            def get_counts(s): return dict(s.c)
        try:
            for it in range(60):
                n = t.rng.randint(1, 4) if it > 3 else 7 * it + 5; cnt = {format(t.rng.randrange(2 ** n), '0%db' % n): t.rng.randint(1, 50) for _ in range(4 if it > 3 else 600)}; S = sum(cnt.values()); be = object()
                qiskit.execute = lambda circ, backend=None, shots=None, **k: (hit.append((circ, backend, shots, k)), J(cnt))[1]
                c = Circuit(n).h[0].m[:]; t.case(('fake', repr(cnt))); r = c.run(backend='ibmq', qiskit_backend=be, shots=S, memory=True)
                if not hit: return
                if hit[-1][1] is not be or hit[-1][2] != S or hit[-1][3] != {'memory': True}: t.fail('options %r' % (hit[-1][1:],), n)
                if dict(r) != {k[::-1]: v for k, v in cnt.items()}: t.fail('counts %r of %r' % (dict(r), cnt), n)
        finally: qiskit.execute = old
    t.guard('prepared counts', fake)
    def missing():
        """qiskit cannot be imported"""
        import builtins
        oi = builtins.__import__
        for exc in (ImportError('no'), RuntimeError('broken')):
            def imp(name, *a, **k):
                if name == 'qiskit' or name.startswith('qiskit.'): raise exc
                return oi(name, *a, **k)
            builtins.__import__ = imp
            try:
                try: r = Circuit(1).run(backend='ibmq', returns='_exception')
                except Exception as e: t.fail('_exception raises %s' % type(e).__name__, repr(exc)); continue
                if r is None: return     # imported in another way
                if r is not exc: t.fail('_exception gives %r' % (r,), repr(exc))
                try: Circuit(1).run(backend='ibmq')
                except ImportError: 
                    if not isinstance(exc, ImportError): pass
                except ValueError: pass
                else: t.fail('runs without qiskit', repr(exc))
            finally: builtins.__import__ = oi
    t.guard('qiskit missing', missing)
