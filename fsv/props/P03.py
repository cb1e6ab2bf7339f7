"""Optical circuits are unitary, linear and conserve the photon number."""
import math
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is an optical circuit with two or more input states; it is non-trivial when the circuit changes at least one of the states and '
        'one of them has at least two photons')


@st.composite
def circuits(draw):
    L, N = draw(G.dims(650, Lmax=6, Nmax=5))
    total = draw(st.sampled_from([None, L - 1]))
    return prog.related(draw, dict(L=L, N=N, C=1, **draw(G.flags), total=total,
                states=[draw(G.state(L, N, 1, total)) for _ in range(2)],
                mixw=[draw(G.amp), draw(G.amp)],
                nodes=draw(st.lists(st.one_of(G.optical_node(N), G.optical_node(N),
                                              st.tuples(st.just('psc'), st.integers(0, N - 1), st.just(0)).map(list),
                                              G.pair(N).map(lambda p: ['wpc', p[0], p[1], 0, 0])), min_size=1, max_size=6))))


def photons(comps):
    d = {}
    for v, a in comps.items():
        d[sum(v)] = d.get(sum(v), 0) + abs(a) ** 2
    return d


def check(case, ctx):
    """Norms, inner products, superpositions and photon number statistics before and after."""
    L = case['L']
    sts = [dict(s, init=str(i), cl=case['states'][0]['cl']) for i, s in enumerate(case['states'])]
    ins = [lib.comps_of(s) for s in sts]
    w = [complex(*x) for x in case['mixw']]
    sup = {}
    for a, x in zip(w, ins):
        for v, b in x.items():
            sup[v] = sup.get(v, 0) + a * b
    n = math.sqrt(O.norm2(sup))
    use_sup = n > 0.05
    if use_sup:
        sup = {v: b / n for v, b in sup.items() if abs(b / n) > 1e-3}
        n2 = math.sqrt(O.norm2(sup))
        sup = {v: b / n2 for v, b in sup.items()}
        sts.append(dict(sts[0], init='2', comps=[[list(v), [b.real, b.imag]] for v, b in sup.items()]))
        ins.append(sup)
    c = lib.circuit(case)
    coll = lib.collection(c, case, sts)
    out = c.evaluate_circuit(collection_of_states_input=coll)
    res = lib.read(out, case)
    lib.need([r.init for r in res] == [s['init'] for s in sts], 'states changed order or disappeared')
    outs = [r.comps for r in res]
    for i, (x, y) in enumerate(zip(ins, outs)):
        lib.need(abs(O.norm2(y) - 1) < 2e-4, 'norm of state %d is %.6f after the circuit' % (i, O.norm2(y)))
        px, py = photons(x), photons(y)
        for k in set(px) | set(py):
            lib.need(abs(px.get(k, 0) - py.get(k, 0)) < 4e-4,
                     'probability of %d photons changed from %.5f to %.5f for state %d' % (k, px.get(k, 0), py.get(k, 0), i))
    for i in range(len(ins)):
        for j in range(i):
            a, b = O.overlap(ins[i], ins[j]), O.overlap(outs[i], outs[j])
            lib.need(abs(a - b) < 5e-4, 'inner product of states %d and %d changed from %s to %s' % (i, j, a, b))
    if use_sup:
        want = {}
        # the superposition as it was given to the circuit, in terms of the two states
        for a, y in zip(w, outs):
            for v, b in y.items():
                want[v] = want.get(v, 0) + a * b / n
        lib.close(outs[2], want, 3e-3, 'output of the superposition')
    ctx.label('over' if any(sum(v) >= L for x in ins for v in x) else 'within', 'full' if case['full'] else 'reduced')
    ctx.nt(any(O.distance(x, y) > 1e-3 for x, y in zip(ins, outs)) and any(sum(v) >= 2 for x in ins for v in x))


SCALE = 3.5
FACETS = [Facet('unitary', circuits(), check, 480, 15000)]
