"""Evaluation has no side effects and is repeatable."""
import copy
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv import pulses as T
from fsv.core import Facet
from fsv.props import P19

RULE = ('a case is a program with input states and a way to use circuit and collections more than once; it is non-trivial when the program '
        'changes the states')


@st.composite
def programs(draw):
    p = draw(prog.program(nodes=(1, 6)))
    for s in p['states']:
        if draw(st.booleans()):
            s['hist'] = [[[float(draw(st.integers(0, 2))) for _ in range(p['C'])], 0.5]]
    return p


def mutate(coll):
    """Change everything in a collection in place."""
    for s in coll:
        for name in list(s.optical_components):
            s.optical_components[name]['amplitude'] = 0.123
            s.optical_components[name]['probability'] = 0.5
        s.optical_components.clear()
        for k in range(len(s.classical_channel_values)):
            s.classical_channel_values[k] = -77
        for h in s.measurement_results:
            h['probability'] = -1
            for k in range(len(h['measurement_results'])):
                h['measurement_results'][k] = -5
        s.measurement_results.append({'measurement_results': [], 'probability': 0.0})
        s.initial_state = 'changed'
        s.cumulative_probability = 0.0


def strip(snap):
    """Identifiers of states are chosen by the library."""
    return [x[1:6] for x in snap]


def check_input(case, ctx):
    """The input collection is unchanged by evaluation and by any change of the output, and the other way around."""
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    size = len(c.node_list)
    out = c.evaluate_circuit(collection_of_states_input=coll)
    lib.need(lib.snapshot(coll) == before, 'evaluation changed the input collection\n before %s\n after  %s' % (before, lib.snapshot(coll)))
    lib.need(len(c.node_list) == size, 'evaluation changed the list of nodes')
    snap = lib.snapshot(out)
    keep = copy.deepcopy(snap)
    res = lib.read(out, case)
    mutate(out)
    lib.need(lib.snapshot(coll) == before, 'a change of the output collection shows in the input collection')
    out2 = c.evaluate_circuit(collection_of_states_input=coll)
    lib.need(strip(lib.snapshot(out2)) == strip(keep), 'second evaluation differs\n first  %s\n second %s' % (strip(keep), strip(lib.snapshot(out2))))
    mutate(coll)
    lib.need(strip(lib.snapshot(out2)) == strip(keep), 'a change of the input collection shows in the output collection')
    # evaluation by a circuit with another threshold leaves the threshold of the collection and of its copies alone
    third = lib.collection(c, case, case['states'])
    lib.circuit(dict(case, thr=0.3, name='other')).evaluate_circuit(collection_of_states_input=third)
    n = case['L'] ** case['N']
    for x in (third, third.copy()):
        s = fsc.State(x)
        s.set_state_components_from_vector([0.8, 0.6j * 0.5] + [0.0] * (n - 2))
        lib.need(len(s.optical_components) == 2, 'evaluation by another circuit changed the threshold of the input collection')
    # another circuit from the same description, used for the first time
    fresh = lib.circuit(case)
    out3 = fresh.evaluate_circuit(collection_of_states_input=lib.collection(fresh, case, case['states']))
    lib.need(strip(lib.snapshot(out3)) == strip(keep), 'a new circuit gives another result')
    ctx.nt(prog.changed(case, res))
    ctx.label(*sorted({n[0] for n in case['nodes']}))


def check_states_apart(case, ctx):
    """States of the result do not share data with each other."""
    out = prog.run(case)[1]
    states = list(out)
    snaps = strip(lib.snapshot(out))
    class One(list):
        def items(self):
            return [(0, s) for s in self]
    for i, s in enumerate(states):
        if i % 2 == 0:
            mutate([s])
    after = strip(lib.snapshot(out))
    for i in range(len(states)):
        if i % 2:
            lib.need(after[i] == snaps[i], 'a change of one state of the result shows in another state\n before %s\n after  %s' % (snaps[i], after[i]))
    # nor do the parts of one state: its classical values and its history are records of their own
    out = prog.run(case)[1]
    hist = [x[5] for x in lib.snapshot(out)]
    for s in out:
        for k in range(len(s.classical_channel_values)):
            s.classical_channel_values[k] = -77
    lib.need([x[5] for x in lib.snapshot(out)] == hist, 'a change of the classical values of a result shows in its history')
    ctx.label('states%d' % min(len(states), 6))
    ctx.nt(len(states) > 1)


@st.composite
def noinput(draw):
    return draw(prog.program(max_size=81, nodes=(0, 5), states=(1, 1)))


def check_default(case, ctx):
    """Without an input collection the basis states are evaluated, every time."""
    c = lib.circuit(case)
    first = c.evaluate_circuit()
    snap = strip(lib.snapshot(first))
    mutate(first)
    again = c.evaluate_circuit()
    lib.need(strip(lib.snapshot(again)) == snap, 'the second evaluation without input differs from the first')
    L, N = case['L'], case['N']
    basis = [O.values_at(k, L, N) for k in range(L ** N)]
    sts = [dict(init=O.name_of(v, L, case['left']), comps=[[list(v), [1.0, 0.0]]], cl=[0] * case['C']) for v in basis]
    want = lib.read(prog.run(case, states=sts)[1], case)
    lib.compare(lib.read(again, case), want, what='default input')
    ctx.nt()


@st.composite
def growing(draw):
    p = draw(prog.program(nodes=(2, 6)))
    return dict(p, cut=draw(st.integers(1, len(p['nodes']) - 1)), edit=draw(st.sampled_from([None, None, 'reverse', 'slice', 'swap', 'new'])))


def check_growing(case, ctx):
    """A circuit that was used and then gets more nodes, or another order of its nodes, acts like a new circuit with those nodes."""
    if case['edit']:
        c = lib.circuit(case, case['nodes'][::-1])
        coll = lib.collection(c, case, case['states'])
        c.evaluate_circuit(coll)
        lst = lib.circuit(case).node_list
        if case['edit'] == 'reverse':
            c.node_list.reverse()
        elif case['edit'] == 'slice':
            c.node_list[:] = lst
        elif case['edit'] == 'swap':
            for k in range(len(lst)):
                c.node_list[k] = lst[k]
        else:
            c.node_list = lst
        want = lib.read(prog.run(case)[1], case)
        lib.compare(lib.read(c.evaluate_circuit(coll), case), want, tol=1e-5, what='circuit with another order of nodes after use')
        ctx.label(case['edit'])
        ctx.nt(prog.changed(case, want))
        return
    c = lib.circuit(case, case['nodes'][:case['cut']])
    coll = lib.collection(c, case, case['states'])
    c.evaluate_circuit(coll)
    for node in case['nodes'][case['cut']:]:
        lib.add(c, node, case)
    got = lib.read(c.evaluate_circuit(coll), case)
    want = lib.read(prog.run(case)[1], case)
    lib.compare(got, want, tol=1e-5, what='circuit that was extended after use')
    ctx.nt(prog.changed(case, want))


@st.composite
def timed(draw):
    p = P19.settle(draw(P19.circuits()))
    first = [k for k, n in enumerate(p['nodes']) if n[0] in ('td', 'tdc', 'spw')][0]
    return dict(p, cut=draw(st.integers(first + 1, max(first + 1, len(p['nodes']) - 1))))


def check_timed(case, ctx):
    """A collection in which photons carry timing is not changed by the rest of the circuit, and can be used more than once."""
    c1, c2 = T.circuit(case, case['nodes'][:case['cut']]), T.circuit(case, case['nodes'][case['cut']:])
    coll = lib.collection(c1, case, case['states'])
    mid = c1.evaluate_circuit(collection_of_states_input=coll)
    before = lib.snapshot(mid)
    names = [k for k, _ in mid.items()]
    first = c2.evaluate_circuit(collection_of_states_input=mid)
    lib.need(lib.snapshot(mid) == before, 'evaluation changed a collection of photons with timing\n before %s\n after  %s' % (before, lib.snapshot(mid)))
    t1 = T.table(first, case)
    mid.copy()
    repr([str(x) for x in mid])
    second = c2.evaluate_circuit(collection_of_states_input=mid)
    lib.need(lib.snapshot(mid) == before and [k for k, _ in mid.items()] == names, 'the second evaluation changed a collection of photons with timing')
    t2 = T.table(second, case)
    P19.compare(t1, t2, 1e-6, 'first and second evaluation of photons with timing')
    P19.compare(t1, T.summary(T.expected(case), case), 2e-4, 'circuit in two parts with timing')
    ctx.label(*sorted({n[0] for n in case['nodes'][case['cut']:]}))
    ctx.nt(any(n[0] in ('td', 'tdc', 'wp', 'mix', 'mixg', 'wpc') for n in case['nodes'][case['cut']:]))


SCALE = 1.5
FACETS = [Facet('timed', timed(), check_timed, 120, 3000),
          Facet('input', programs(), check_input, 320, 12000), Facet('apart', programs(), check_states_apart, 160, 6000),
          Facet('default', noinput(), check_default, 80, 2000), Facet('growing', growing(), check_growing, 160, 5000)]
