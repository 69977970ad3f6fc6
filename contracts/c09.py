"""C09: OpenQASM text means the same as the circuit."""
from contracts.common import *
from engine.opaque import Opaque, OName, Text, Seg, GList, raw, content
from engine import seqs
import re, ast
PI = alg.PI; Q = gs.Q

# the gates of qelib1.inc, from the OpenQASM 2.0 paper: U as in its section 4, the others by
# their definitions (a standard name for a controlled gate stands for the controlled matrix)
def U(t, p, l):
    c, s = alg.cos(t * Q(1, 2)), alg.sin(t * Q(1, 2))
    return gs.m2(c, -alg.exp_i(l) * s, alg.exp_i(p) * s, alg.exp_i(p + l) * c)
def u1(l): return gs.m2(1, 0, 0, alg.exp_i(Alg.of(l)))
def body(k, *steps):
    m = gs.eye(2 ** k)
    for g, qs in steps: m = gs.mul(gs.embed(g, qs, k), m)
    return m
ZERO = Alg.of(0); CX = gs.ctrl(gs.mat_x())
h = Q(1, 2)
STD = {'id': (0, 1, gs.mat_i), 'x': (0, 1, lambda: U(PI, ZERO, PI)), 'y': (0, 1, lambda: U(PI, PI * h, PI * h)), 'z': (0, 1, lambda: u1(PI)), 'h': (0, 1, lambda: U(PI * h, ZERO, PI)),
 's': (0, 1, lambda: u1(PI * h)), 'sdg': (0, 1, lambda: u1(-PI * h)), 't': (0, 1, lambda: u1(PI * Q(1, 4))), 'tdg': (0, 1, lambda: u1(-PI * Q(1, 4))),
 'rx': (1, 1, lambda t: U(t, -PI * h, PI * h)), 'ry': (1, 1, lambda t: U(t, ZERO, ZERO)), 'rz': (1, 1, u1), 'u1': (1, 1, u1), 'u2': (2, 1, lambda p, l: U(PI * h, p, l)), 'u3': (3, 1, U),
 'cx': (0, 2, lambda: CX), 'cy': (0, 2, lambda: gs.ctrl(gs.mat_y())), 'cz': (0, 2, lambda: gs.ctrl(gs.mat_z())), 'ch': (0, 2, lambda: gs.ctrl(gs.mat_h())), 'swap': (0, 2, gs.mat_swap),
 'ccx': (0, 3, lambda: gs.ctrl(CX)), 'cswap': (0, 3, lambda: gs.ctrl(gs.mat_swap())),
 'crz': (1, 2, lambda t: gs.ctrl(gs.mat_rz(t))), 'cu1': (1, 2, lambda t: gs.ctrl(u1(t))), 'rzz': (1, 2, lambda t: gs.rpp(gs.mat_z(), t)),
 'crx': (1, 2, lambda t: gs.ctrl(gs.mat_rx(t))), 'cry': (1, 2, lambda t: gs.ctrl(gs.mat_ry(t))), 'rxx': (1, 2, lambda t: gs.rpp(gs.mat_x(), t)),
 'cu3': (3, 2, lambda t, p, l: body(2, (u1((l - p) * h), [1]), (CX, [0, 1]), (U(t * -h, ZERO, (p + l) * -h), [1]), (CX, [0, 1]), (U(t * h, p, ZERO), [1]))),
 # not in qelib1.inc (known finding); read as cu3(pi/2, phi, lambda)
 'cu2': (2, 2, lambda p, l: STD['cu3'][2](PI * h, p, l))}
UNDEFINED = {'cu2'}

class Bad(Exception):
    """the text cannot be read as OpenQASM 2"""
def value(s, tokens):
    s = s.strip(); names = {}
    for i, t in enumerate(re.findall('\u27e6\\d+\u27e7', s)):
        names['_t%d' % i] = tokens[t]; s = s.replace(t, '_t%d' % i, 1)
    try: tree = ast.parse(s, mode='eval').body
    except SyntaxError: raise Bad('parameter %r' % s)
    def ev(n):
        if isinstance(n, ast.Constant) and type(n.value) in (int, float): return Alg.of(n.value)
        if isinstance(n, ast.Name):
            if n.id == 'pi': return PI
            if n.id in names: return Alg.of(names[n.id])
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub): return -ev(n.operand)
        if isinstance(n, ast.BinOp):
            a, b = ev(n.left), ev(n.right)
            if isinstance(n.op, ast.Add): return a + b
            if isinstance(n.op, ast.Sub): return a - b
            if isinstance(n.op, ast.Mult): return a * b
            if isinstance(n.op, ast.Div): return a / b
        if 'Alg<' in s or 'SInt(' in s: raise Unsupported('text made with repr of a number')
        raise Bad('parameter %r' % s)
    return ev(tree)
def index(s, tokens):
    s = s.strip()
    if s in tokens: return tokens[s]
    if re.fullmatch(r'\d+', s): return int(s)
    if 'SInt(' in s: raise Unsupported('text made with repr of a number')
    raise Bad('index %r' % s)
ARG = r'([a-z]\w*)\s*\[([^\]]*)\]'
def statements(text, tokens):
    """the statements of a piece of text which ends where a statement ends"""
    text = '\n'.join(l.split('//')[0] for l in text.split('\n'))
    st = [s.strip() for s in text.split(';')]
    if st[-1]: raise Bad('statement without semicolon: %r' % st[-1])
    out = []
    for s in st[:-1]:
        if s.startswith('OPENQASM') or s.startswith('include'): out.append(('head', re.sub(r'\s+', ' ', s))); continue
        m = re.fullmatch(r'(qreg|creg)\s+' + ARG, s)
        if m: out.append((m[1], m[2], index(m[3], tokens))); continue
        m = re.fullmatch(r'measure\s+' + ARG + r'\s*->\s*' + ARG, s)
        if m: out.append(('measure', (m[1], index(m[2], tokens)), (m[3], index(m[4], tokens)))); continue
        m = re.fullmatch(r'reset\s+' + ARG, s)
        if m: out.append(('reset', (m[1], index(m[2], tokens)))); continue
        m = re.fullmatch(r'([a-zA-Z_]\w*)\s*(?:\((.*)\))?\s*((?:' + ARG + r'\s*,\s*)*' + ARG + ')', s)
        if not m: raise Bad('statement %r' % s)
        qs = [(a, index(b, tokens)) for a, b in re.findall(ARG, m[3])]
        ps = [value(x, tokens) for x in m[2].split(',')] if m[2] is not None else []
        out.append(('gate', m[1], ps, qs))
    return out
def position(q, qs):
    reg, i = q
    if reg != 'q': raise Bad('register %r' % reg)
    m = [k for k, x in enumerate(qs) if x is i or (isinstance(i, SInt) and isinstance(x, SInt) and cur().implied(i.e == x.e))]
    if len(m) == 1: return m[0]
    if isinstance(i, SInt): 
        for x in qs:
            if cur().status(i.e == x.e) is None: raise Unsupported('a qubit which may or may not be the operation\'s')
    raise Bad('a statement on qubit %r, which is not one of the operation\'s' % (i,))
def meaning(sts, qs):
    """matrix of gate statements on the qubits qs"""
    k = len(qs); tot = gs.eye(2 ** k)
    for s in sts:
        if s[0] != 'gate': raise Bad('%s in place of a gate' % s[0])
        _, g, ps, args = s
        if g not in STD: raise Bad('unknown gate %r' % g)
        npar, nq, f = STD[g]
        pos = [position(a, qs) for a in args]
        if len(ps) != npar or len(pos) != nq or len(set(pos)) != nq: raise Bad('arguments of %r' % g)
        tot = gs.mul(gs.embed(f(*ps), pos, k), tot)
    return tot

def pieces(c, text, sep_ok=True):
    """[(items as text, tokens)] of the final text: strings or runs"""
    if isinstance(text, str): return [('str', text)]
    if not isinstance(text, Text): raise Unsupported('the text is not made by joining')
    if text.sep.strip(): raise Unsupported('statements joined by %r' % text.sep)
    out = []; buf = []
    for x in text.items:
        if isinstance(x, str): buf.append(x)
        else:
            if buf: out.append(('str', text.sep.join(buf)))
            buf = []; out.append(('run', x))
    if buf: out.append(('str', text.sep.join(buf)))
    if '\n' not in text.sep and any('//' in v for k, v in out if k == 'str'): raise Unsupported('comments joined on one line')
    return out
def find_list(ctx):
    """the list of statements in a run's context"""
    cands = []
    def go(v, d):
        if isinstance(v, list): cands.append(v)
        elif isinstance(v, tuple) and d < 3: [go(x, d + 1) for x in v]
        elif isinstance(v, dict) and d < 3: [go(x, d + 1) for x in v.values()]
        elif hasattr(v, '__dict__') and d < 3 and not isinstance(v, type): [go(x, d + 1) for x in vars(v).values()]
    go(ctx, 0)
    if len(cands) != 1: raise Unsupported('where the statements are kept')
    return cands[0]

def gate_text(led, qm, g, unroll=None):
    gate = sys.modules['blueqat.gate']
    nq, npar, mat = gs.GATES[g] if g in gs.GATES else (1, 0, None)
    cls = getattr(gate, gs.CLASSES[g])
    name = 'QasmOutputBackend.gate_%s' % g + ('' if unroll is None else '[%d targets]' % unroll)
    def path():
        c = cur()
        n, dom = register()
        ps = gs.symbolic_params(npar)
        prologue = c.choose(3, 'prologue')
        if nq < 3:
            sq = single_seq(n) if nq == 1 else pair_seq(n)
            if unroll is not None: sq = [sq.elem(i) for i in range(unroll)]
            tg = Targets(sq, nq)
        else:
            tg = tuple(qubit(n, 'q%d' % i) for i in range(nq))
            for i in range(nq):
                for j in range(i): c.assume(tg[i].e != tg[j].e)
        op = cls(tg, *ps)
        b = qm.QasmOutputBackend()
        kw = [{}, {'output_prologue': True}, {'output_prologue': False}][prologue]
        ops = [op]
        pre = b._preprocess_run(ops, n, (), kw)
        if not (isinstance(pre, tuple) and len(pre) == 2): raise Unsupported('preparation')
        c.require(pre[0] is ops, 'the operations written are those given')
        ctx = pre[1]
        l = find_list(ctx)
        before = Seg('earlier statements'); list.append(l, before)
        ctx2 = getattr(b, 'gate_' + g)(op, ctx)
        text = b._postprocess_run(ctx2)
        ps_ = pieces(c, text)
        c.require(op.targets is tg and len(op.params) == len(ps) and all(a is b for a, b in zip(op.params, ps)), 'frame: the operation is not changed')
        at = [i for i, p in enumerate(ps_) if p[0] == 'run' and p[1] is before]
        c.require(len(at) == 1, 'earlier statements are kept')
        head, mine = ps_[:at[0]], ps_[at[0] + 1:]
        c.require(all(p[0] == 'str' for p in head) and len(head) == (1 if prologue < 2 else 0), 'a prologue exactly when it is asked for', repr(head))
        if prologue < 2:
            try: st = statements(head[0][1], c.tokens)
            except Bad as e: c.require(False, 'the prologue is OpenQASM', str(e)); return
            ok = len(st) == 4 and [s[0] for s in st] == ['head', 'head', 'qreg', 'creg'] and st[0][1] == 'OPENQASM 2.0' and st[1][1] == 'include "qelib1.inc"' \
                 and st[2][1] == 'q' and st[3][1] == 'c' and isinstance(st[2][2], SInt) and isinstance(st[3][2], SInt)
            c.require(ok, 'the prologue declares version, library and one register of each kind', repr(st))
            if ok:
                for s in st[2:]: c.prove(s[2].e == n.e, 'the %s has the circuit\'s size' % s[0])
        runs = []
        if nq == 3 or unroll is not None: 
            if any(p[0] != 'str' for p in mine) or len(mine) > 1: raise Unsupported('statements in another shape')
            runs = [(None, mine[0][1] if mine else '', c.tokens)]
        else:
            if not mine: raise Unsupported('no statements')
            if len(mine) != 1 or mine[0][0] != 'run' or not isinstance(mine[0][1], FoldSeg) or mine[0][1].seq is not sq: raise Unsupported('the statements are not one run per target, in order')
            for _, el, items, _ in mine[0][1].alternatives:
                if not all(isinstance(x, str) for x in items): raise Unsupported('statements which are not text')
                tk = {}
                for x in items: tk.update(getattr(x, 'tokens', {}))
                runs.append((el, '\n'.join(items), tk))
        for el, txt, tk in runs:
            try: sts = statements(txt, tk)
            except Bad as e: c.require(False, 'what is written is OpenQASM', '%s in %r' % (e, txt)); continue
            if el is not None: els = [el]
            elif nq == 3: els = [tg]
            else: els = list(sq)
            els = [e if isinstance(e, tuple) else (e,) for e in els]
            if g in ('measure', 'reset'):
                ok = len(sts) == len(els) and all(s[0] == g for s in sts)
                c.require(ok, 'one %s statement for each target' % g, txt)
                for s, e in zip(sts, els) if ok else ():
                    for reg, i in s[1:]:
                        c.require(isinstance(i, SInt), 'on the target', txt)
                        if isinstance(i, SInt): c.prove(i.e == e[0].e, 'on the target and the classical bit of the same index, in order')
                    c.require([r for r, _ in s[1:]] == ['q', 'c'][:len(s) - 1], 'from the quantum to the classical register')
                continue
            qall = []
            for e in els:
                for q in e:
                    if not any(q is x for x in qall): qall.append(q)
            for i in range(len(qall)):
                for j in range(i): c.assume(qall[i].e != qall[j].e)
            want = gs.eye(2 ** len(qall))
            for e in els: want = gs.mul(gs.embed(mat(*ps), [[i for i, y in enumerate(qall) if y is q][0] for q in e], len(qall)), want)
            try: got = meaning(sts, qall)
            except Bad as e: c.require(False, 'what is written is OpenQASM', '%s in %r' % (e, txt)); continue
            ok = gs.phase_equal(got, want, c.norm)
            c.require(ok, 'the statements written mean the gate up to a global phase', txt)
            und = sorted({s[1] for s in sts} & UNDEFINED)
            c.require(not und, 'only gates of qelib1.inc are used' + (' (%s)' % und[0] if und else ''), txt)
    return run_explore(led, name, path)

def known_key(o):
    if o.name.startswith('QasmOutputBackend.gate_cu2') and o.name.endswith('only gates of qelib1.inc are used (cu2)'): return 'cu2-not-in-qelib1'

def run(led, tier='quick'):
    load_repo()
    qm = sys.modules['blueqat.backends.qasm_output_backend']; cm = sys.modules['blueqat.circuit']; gate = sys.modules['blueqat.gate']
    if hasattr(qm, 'slicing'): qm.slicing = gate.slicing
    B = qm.QasmOutputBackend
    for g in list(gs.GATES) + ['measure', 'reset']:
        if not hasattr(B, 'gate_' + g):
            has = getattr(gate, gs.CLASSES[g]).fallback is not gate.Gate.fallback
            led.add('QasmOutputBackend: %s is written or replaced by gates which are' % g, 'proved' if has or g == 'ccz' else 'refuted', 'structure'); continue
        n0 = len(led.obs)
        gate_text(led, qm, g)
        bad = any(o.status != 'proved' and known_key(o) is None for o in led.obs[n0:])
        k = gs.GATES[g][0] if g in gs.GATES else 1
        if bad or g == 'cu2':
            if k < 3:
                for u in (0, 1, 2): gate_text(led, qm, g, u)
        if g == 'cu2':
            # the statement which is not defined is the known finding, reported once
            led.obs = [o for o in led.obs if not (o.status == 'unknown' and o.name.endswith('only gates of qelib1.inc are used (cu2)'))]
        led.functions['blueqat.backends.qasm_output_backend.QasmOutputBackend.gate_' + g] = 'any target list, any parameters'
    led.functions['blueqat.backends.qasm_output_backend.QasmOutputBackend._preprocess_run'] = led.functions['blueqat.backends.qasm_output_backend.QasmOutputBackend._postprocess_run'] = 'any register'
    def entry():
        c = cur(); log = []
        res = Opaque('text'); a, k = [((), {}), ((Opaque('x'),), {'output_prologue': Opaque('p')})][c.choose(2, 'options')]
        class S(B):
            vx_static = True
            def run(self, *aa, **kk): log.append((aa, kk)); return res
        cm.BACKENDS['qasm_output'] = S
        try:
            s = cm.Circuit(); s.n_qubits = Opaque('n'); s.ops = Opaque('ops'); o, n = s.ops, s.n_qubits
            r = s.to_qasm(*a, **k)
        finally: cm.BACKENDS['qasm_output'] = B
        c.require(r is res and len(log) == 1, 'the text is the result of one run of the OpenQASM backend')
        aa, kk = log[0]
        c.require(len(aa) == 2 + len(a) and aa[0] is o and aa[1] is n and all(x is y for x, y in zip(aa[2:], a)) and set(kk) == set(k) and all(kk[x] is k[x] for x in k), 'on the circuit\'s operations and size, with the options given', repr(log))
        c.require(s.ops is o and s.n_qubits is n, 'frame: the circuit is not changed')
    run_explore(led, 'Circuit.to_qasm', entry)
    def registered():
        c = cur()
        c.require(cm.BACKENDS['qasm_output'] is B, 'the backend qasm_output is the OpenQASM backend')
        for nm in ('run', '_run', '_run_gates'):
            c.require(getattr(B, nm) is getattr(sys.modules['blueqat.backends.backendbase'].Backend, nm), 'it runs like every backend (C23): ' + nm)
    run_explore(led, 'the backend qasm_output', registered)
    led.functions['blueqat.circuit.Circuit.to_qasm'] = 'any options'
    led.need = 150
ASSUMPTIONS = ['Numbers are written by format/str, which gives a decimal (or exponent) form reading back as the same number; checked concretely for samples.',
 'qelib1.inc and U are as in the OpenQASM 2.0 paper; crx, cry, rxx, rzz, swap, cswap as in the later library.',
 'Operations without an action are replaced by their decomposition (C23), whose meaning is C02\'s.']
