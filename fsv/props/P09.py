"""Whole programs agree with a reference simulator."""
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a program of optical, controlled, classical, measurement, shift and custom nodes with a mixture of superpositions; it is '
        'non-trivial when at least two kinds of nodes occur and the states change')


def check(case, ctx):
    """Optical states, classical values, probabilities and history after the program."""
    out = lib.read(prog.run(case)[1], case)
    lib.compare(out, prog.expected(case), what='program')
    kinds = {n[0] for n in case['nodes']}
    ctx.label(*sorted(kinds))
    ctx.label('branches%d' % min(9, len(out)))
    ctx.nt(len(kinds) > 1 and prog.changed(case, out))


@st.composite
def feedforward(draw):
    """measure, compute on the outcome, use it to control the optics, measure again"""
    L, N = draw(G.dims(260, Lmax=4, Nmax=4, big=False))
    C = draw(st.integers(1, 3))
    kinds = {'meas', 'wpc', 'psc', 'cfun', 'setc', 'opt', 'gen_cset', 'shiftd', 'csd'}
    nodes = draw(st.lists(G.optical_node(N), max_size=2))
    for _ in range(draw(st.integers(1, 3))):
        nodes.append(draw(G.any_node(L, N, C, kinds=['meas'])))
        nodes += draw(st.lists(G.any_node(L, N, C, kinds=['cfun', 'setc', 'gen_cset']), max_size=1))
        nodes += draw(st.lists(G.any_node(L, N, C, kinds=['wpc', 'psc']), min_size=1, max_size=2))
        nodes += draw(st.lists(G.any_node(L, N, C, kinds=kinds), max_size=1))
    return dict(L=L, N=N, C=C, **draw(G.flags), nodes=nodes, states=[draw(G.state(L, N, C, L - 1)) for _ in range(draw(st.integers(1, 2)))])


SCALE = 1.5

FACETS = [Facet('program', prog.program(nodes=(1, 8), Cmax=3), check, 400, 20000), Facet('feedforward', feedforward(), check, 240, 10000),
          Facet('large', prog.large(), check, 100, 4000)]
