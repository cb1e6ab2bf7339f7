"""Optical evolution agrees with the quantum mechanics of bosons."""
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a pure input state and a list of optical nodes; it is non-trivial when a node acts on a component with at least two '
        'photons in its channels, or the state is a superposition, and the output differs from the input')


@st.composite
def single(draw):
    L, N = draw(G.dims(1100, Lmax=11, Nmax=5))
    if draw(st.integers(0, 9)) == 0:
        L, N = draw(st.integers(9, 12)), 2
    return dict(L=L, N=N, **draw(G.flags), comps=draw(G.comps(L, N, None if draw(st.booleans()) else L - 1)), nodes=[draw(G.optical_node(N))])


def evolve(case):
    c = lib.circuit(case)
    coll = lib.collection(c, case, [dict(init='in', comps=case['comps'])])
    return lib.read_one(c.evaluate_circuit(collection_of_states_input=coll), case)


def interesting(case, out):
    comps = lib.comps_of(case)
    two = any(sum(v) >= 2 for v in comps)
    return (two or len(comps) > 1) and O.distance(out.comps, comps) > 1e-3


def check_single(case, ctx):
    """One optical node on any pure state, against the transformation of creation operators."""
    L, N = case['L'], case['N']
    out = evolve(case)
    want = O.apply_gates(lib.comps_of(case), O.mode_gates(case['nodes'][0]), L)
    lib.close(out.comps, want, 2e-4, 'node %s' % case['nodes'][0])
    lib.need(abs(out.cum - 1) < 1e-6 and out.init == 'in', 'cumulative probability or initial state changed')
    ctx.label(case['nodes'][0][0], 'digits%d' % O.digits(L), 'over' if any(sum(v) >= L for v in lib.comps_of(case)) else 'within')
    ctx.nt(interesting(case, out))


@st.composite
def sequence(draw):
    L, N = draw(G.dims(700, Lmax=5, Nmax=5))
    return prog.related(draw, dict(L=L, N=N, **draw(G.flags), comps=draw(G.comps(L, N, L - 1)),
                nodes=draw(st.lists(G.optical_node(N), min_size=1, max_size=7))))


def check_sequence(case, ctx):
    """A list of optical nodes on a state with at most L-1 photons, against permanents of the product of the mode matrices."""
    L, N = case['L'], case['N']
    out = evolve(case)
    gates = [g for n in case['nodes'] for g in O.mode_gates(n)]
    want = O.permanent_evolution(lib.comps_of(case), O.gates_unitary(gates, N), L)
    lib.close(out.comps, want, 5e-4, 'nodes %s' % case['nodes'])
    ctx.label('nodes%d' % len(case['nodes']), 'photons%d' % max(sum(v) for v in lib.comps_of(case)))
    ctx.nt(interesting(case, out))


SCALE = 2.5
FACETS = [Facet('single', single(), check_single, 640, 20000), Facet('sequence', sequence(), check_sequence, 320, 10000)]
