"""Meaning of gate objects and lists of gate objects under contract."""
from contracts.common import *

def params_of(op, g):
    """the gate's parameters: the public tuple, which must agree with the attributes the
    backends read"""
    return tuple(op.params)
ATTRS = {'u1': ['lambd'], 'cu1': ['lambd'], 'u2': ['phi', 'lambd'], 'cu2': ['phi', 'lambd'], 'u3': ['theta', 'phi', 'lambd'], 'cu3': ['theta', 'phi', 'lambd']}
def attr_names(g):
    return ATTRS.get(g) or (['theta'] if gs.GATES[g][1] == 1 else [])
def check_attrs(c, op, g, name):
    ps = params_of(op, g)
    ok = len(ps) == gs.GATES[g][1]
    if ok:
        for a, p in zip(attr_names(g), ps):
            v = getattr(op, a, None)
            ok = ok and v is not None and c.norm(Alg.of(v) - Alg.of(p)).is_zero()
    c.require(ok, name, 'params %r' % (ps,))
def positions(op, qs):
    """positions in qs of the qubits op acts on (single targets only)"""
    tg = op.targets
    tg = tg if isinstance(tg, tuple) else (tg,)
    out = []
    for t in tg:
        m = [i for i, q in enumerate(qs) if q is t or (isinstance(t, SInt) and isinstance(q, SInt) and (t.e.eq(q.e) or cur().implied(t.e == q.e)))]
        if len(m) != 1: raise Unsupported('a gate on %r, which is not one of the operation\'s qubits' % (t,))
        out.append(m[0])
    return out
def matrix_of(op, g=None):
    g = g or op.lowername
    if g not in gs.GATES: raise Unsupported('no meaning for gate %r' % g)
    nq, npar, mat = gs.GATES[g]
    ps = params_of(op, g)
    if len(ps) != npar: raise Unsupported('%s with %d parameters' % (g, len(ps)))
    return nq, mat(*[Alg.of(p) for p in ps])
def product(items, qs):
    """matrix of a list of gates, applied first to last, on the qubits qs"""
    k = len(qs)
    tot = gs.eye(2 ** k)
    for op in items:
        nq, m = matrix_of(op)
        ps = positions(op, qs)
        if len(ps) != nq: raise Unsupported('%s gate on %d qubits' % (op.lowername, len(ps)))
        if len(set(ps)) != nq: raise Unsupported('a gate with equal control and target')
        tot = gs.mul(gs.embed(m, ps, k), tot)
    return tot
