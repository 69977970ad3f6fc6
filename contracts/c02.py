"""C02: fallback() of every gate which has one returns gates whose product, target by
target, is the gate's own matrix up to one global phase."""
from contracts.meaning import *

def has_fallback(cls, base):
    return cls.fallback is not base.fallback

def fallback(led, g, unroll=None):
    gate = sys.modules['blueqat.gate']
    nq, npar, mat = gs.GATES[g]
    cls = getattr(gate, gs.CLASSES[g])
    name = '%s.fallback' % gs.CLASSES[g] + ('' if unroll is None else '[%d targets]' % unroll)
    def path():
        c = cur()
        n, dom = register()
        ps = gs.symbolic_params(npar)
        m = mat(*ps)
        loops = []
        if nq < 3:
            sq = single_seq(n) if nq == 1 else pair_seq(n)
            if unroll is not None: sq = [sq.elem(i) for i in range(unroll)]
            tg = Targets(sq, nq)
        else:
            tg = tuple(qubit(n, 'q%d' % i) for i in range(nq))
            for i in range(nq):
                for j in range(i): c.assume(tg[i].e != tg[j].e)
        op = cls(tg, *ps)
        kept = Kept(op)
        out = op.fallback(n)
        kept.check()
        c.require(isinstance(out, (list, tuple)), 'a list of gates is returned')
        out = list(out)
        c.require(op.targets is tg and all(a is b for a, b in zip(op.params, ps)), 'frame: the gate itself is not changed')
        if g == 'i':
            c.require(out == [], 'the identity does nothing'); return
        if nq == 3: segs = [(tg, out)]
        elif unroll is not None:
            qall = []
            for e in sq:
                for q in (e if nq == 2 else (e,)):
                    if not any(q is x for x in qall): qall.append(q)
            for i in range(len(qall)):
                for j in range(i): c.assume(qall[i].e != qall[j].e)
            want = gs.eye(2 ** len(qall))
            for e in sq: want = gs.mul(gs.embed(m, [[i for i, y in enumerate(qall) if y is q][0] for q in (e if nq == 2 else (e,))], len(qall)), want)
            for o in out: check_attrs(c, o, o.lowername, 'parameters of the replacement gates are consistent')
            c.require(gs.phase_equal(product(out, qall), want, c.norm), 'product of the replacement gates', ' '.join(o.lowername for o in out))
            return
        else:
            if not out or not isinstance(out[0], FoldSeg) or len(out) != 1 or out[0].seq is not sq:
                raise Unsupported('the result is not one run of gates per target, in order')
            alts = out[0].alternatives
            segs = []
            for _, el, items, lp0 in alts:
                segs.append((el if nq == 2 else (el,), items))
        for qs, items in segs:
            for o in items: check_attrs(c, o, o.lowername, 'parameters of the replacement gates are consistent')
            p = product(items, list(qs))
            c.require(gs.phase_equal(p, m, c.norm), 'product of the replacement gates', ' '.join(o.lowername for o in items))
    return run_explore(led, name, path)

def run(led, tier='quick'):
    bq = load_repo()
    gate = sys.modules['blueqat.gate']
    nbm = sys.modules['blueqat.backends.numpy_backend']
    for g in gs.GATES:
        cls = getattr(gate, gs.CLASSES[g])
        n0 = len(led.obs)
        if not has_fallback(cls, gate.Gate):
            # nothing to replace: each backend implements it itself
            continue
        fallback(led, g)
        if any(o.status != 'proved' for o in led.obs[n0:]) and gs.GATES[g][0] < 3:
            for k in (0, 1, 2): fallback(led, g, k)
        led.functions['blueqat.gate.%s.fallback' % gs.CLASSES[g]] = 'any target list, any parameters'
    # coverage: what the simulator does not do itself has a fallback, whose gates it can do
    for g in gs.GATES:
        cls = getattr(gate, gs.CLASSES[g])
        led.add('NumPyBackend: %s has an action or a fallback' % g, 'proved' if hasattr(nbm.NumPyBackend, 'gate_' + g) or has_fallback(cls, gate.Gate) else 'refuted', 'structure')
    led.need = 60
