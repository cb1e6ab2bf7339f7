"""A gate with classical control acts on each state like the static gate with the values of the state."""
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

# Controlled gates are applied one by one and static nodes are combined into one matrix. Components with a probability below
# 1e-9 are dropped after every gate, so that amplitudes can differ by a few times 3e-5.
TOL = 3e-4
RULE = ('a case is a list of gates with classical control and a collection of states with different classical values; it is non-trivial when two '
        'states have different control values and a state changes')


@st.composite
def cases(draw):
    L, N = draw(G.dims(260, Lmax=4, Nmax=4))
    C = draw(st.integers(1, 4))
    return prog.related(draw, dict(L=L, N=N, C=C, **draw(G.flags), nodes=draw(st.lists(G.any_node(L, N, C, kinds=['wpc', 'psc']), min_size=1, max_size=4)),
                states=[draw(G.state(L, N, C, None, cvals=G.angle)) for _ in range(draw(st.integers(1, 4)))]))


def static(node, cl):
    op, *p = node
    if op == 'wpc':
        return ['wp', p[0], p[1], cl[p[2]], cl[p[3]]]
    return ['ps', p[0], cl[p[1]]]


def check(case, ctx):
    """Controlled wave plates and phase shifts against static ones, state by state."""
    sts = [dict(s, init=str(i)) for i, s in enumerate(case['states'])]
    got = lib.read(prog.run(case, states=sts)[1], case)
    lib.need([g.init for g in got] == [s['init'] for s in sts], 'states changed order or disappeared')
    for g, s in zip(got, sts):
        want = lib.read_one(prog.run(case, nodes=[static(n, s['cl']) for n in case['nodes']], states=[s])[1], case)
        lib.close(g.comps, want.comps, TOL, 'state with classical values %s' % s['cl'])
        lib.need(g.cl == [float(x) for x in s['cl']] and abs(g.cum - s['cum']) < 1e-9 and not g.hist, 'a controlled gate changed classical values, probability or history')
    ctx.label(*sorted({n[0] for n in case['nodes']}))
    ctx.nt(len({str(s['cl']) for s in sts}) > 1 and prog.changed(case, got))


many = prog.large(nodes=(1, 24)).map(lambda c: dict(c, nodes=[n for n in c['nodes'] if n[0] in ('wpc', 'psc')] or [['wpc', 0, 1, 0, 0]]))

SCALE = 3
FACETS = [Facet('control', cases(), check, 480, 15000), Facet('many', many, check, 25, 1500)]
