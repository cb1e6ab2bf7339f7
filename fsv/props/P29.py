"""Decomposing states into columns and single photon states, and composing them again, is lossless."""
import math
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet

RULE = 'a case is a mixture of superpositions; it is non-trivial when a state has at least two components and at least two photons in one channel'


def small(comps, k, q):
    k %= len(comps)
    p = abs(complex(*comps[k][1])) ** 2
    f = [math.sqrt(q / p) if i == k else math.sqrt((1 - q) / (1 - p)) for i in range(len(comps))]
    return [[v, [a * g, b * g]] for (v, (a, b)), g in zip(comps, f)]


@st.composite
def cases(draw):
    L, N = draw(G.dims(200, Lmax=5, Nmax=4))
    if draw(st.integers(0, 5)) == 0:
        L, N = 11, 2
    C = draw(st.integers(0, 2))
    states = [draw(G.state(L, N, C, None, max_terms=draw(st.sampled_from([2, 4, 8])))) for _ in range(draw(st.integers(1, 3)))]
    for s in states:
        if len(s['comps']) > 1 and draw(st.integers(0, 3)) == 0:         # one component with a small probability
            s['comps'] = small(s['comps'], draw(st.integers(0, 60)), draw(st.sampled_from([2e-4, 3e-4, 6e-4, 2e-3])))
    return dict(L=L, N=N, C=C, left=draw(st.booleans()), states=states, which=draw(st.integers(0, 2)),
                info=[draw(st.integers(-5, 5)), draw(st.sampled_from([1, 2]))], late=draw(st.booleans()))


def aligned(got, want):
    """The phase of a state with a single component is not kept, since it is a global phase."""
    if len(want) != 1 or len(got) != 1:
        return got
    (v, a), (w, b) = next(iter(got.items())), next(iter(want.items()))
    return {v: abs(a) * b / abs(b)}


def check_split(case, ctx):
    """Splitting gives one single-component state per component with its amplitude; composing an interference group gives the original state."""
    spec = case
    c = lib.circuit(spec, [])
    coll = lib.collection(c, spec, case['states'])
    before = lib.snapshot(coll)
    cols = fsc.CollectionOfStateColumns(collection_of_states=coll.copy())
    cols.split()
    groups = list(cols.by_group())
    lib.need(len(groups) == len(case['states']), '%d groups for %d states' % (len(groups), len(case['states'])))
    left = list(groups)
    want = [(s, lib.comps_of(s)) for s in case['states']]
    for photons in (False, True):
        if photons:
            cols.single_photon_states()
        left = list(cols.by_group())
        for s, comps in want:
            found = None
            for g in left:
                got = {}
                ok = True
                for col in g:
                    values = [0] * case['N']
                    n = 0
                    for x in col:
                        ok &= x.initial_state == s['init'] and list(x.classical_channel_values) == list(s.get('cl', []))
                        lib.need(len(x.optical_components) == 1, 'a state of a column has %d components' % len(x.optical_components))
                        name, ap = next(iter(x.optical_components.items()))
                        v = O.values_of(name, case['L'], case['left'])
                        lib.need(abs(abs(ap['amplitude']) - 1) < 1e-6, 'amplitude %s of the state of a column' % ap)
                        values = [p + q for p, q in zip(values, v)]
                        n += 1
                        if photons:
                            lib.need(sum(v) <= 1, 'more than one photon in %s' % name)
                    lib.need(n == (max(1, sum(values)) if photons else 1), '%d states in a column for %s' % (n, values))
                    factor = math.sqrt(math.prod(math.factorial(k) for k in values)) if photons else 1.0
                    lib.need(abs(col.column_boson_factor - factor) < 1e-6 * factor, 'boson factor %s for %s, expected %s' % (col.column_boson_factor, values, factor))
                    lib.need(tuple(values) not in got, 'two columns for %s' % values)
                    got[tuple(values)] = complex(col.column_amplitude)
                if ok and O.distance(aligned(got, comps), comps) < 1e-4 and abs(g.group_cumulative_probability - s.get('cum', 1.0)) < 1e-6:
                    if found is None:
                        found = g
            lib.need(found is not None, 'no group has the components of the state %s' % s)
            left.remove(found)
            one = found.generate_single_state_from_interference_group()
            r = lib.Read('composed', one, spec)
            lib.close(aligned(r.comps, comps), comps, 1e-4, 'state composed from %s' % ('single photons' if photons else 'columns'))
            lib.need(r.init == s['init'] and abs(r.cum - s.get('cum', 1.0)) < 1e-6 and r.cl == [float(x) for x in s.get('cl', [])],
                     'label, probability or classical values of the composed state')
            lib.need('photon_resolution' not in one.auxiliary_information, 'the composed state has information on columns')
    for x in coll.copy():                # a state that was not taken apart before
        orig = lib.Read('state', x, spec)
        one = fsc.InterferenceGroup(state=x).generate_single_state_from_interference_group()
        r = lib.Read('composed', one, spec)
        lib.close(aligned(r.comps, orig.comps), orig.comps, 1e-4, 'state composed from a group that was not split')
        lib.need((r.init, r.cl) == (orig.init, orig.cl) and abs(r.cum - orig.cum) < 1e-6, 'label, values or probability of the state composed from a group that was not split')
    lib.need(lib.snapshot(coll) == before, 'the original collection changed')
    ctx.nt(any(len(s['comps']) > 1 and any(max(v) > 1 for v, a in s['comps']) for s in case['states']))


def check_collection(case, ctx):
    """A collection of columns written as a collection of states and read again has the same groups, columns, amplitudes and photon information."""
    spec = case
    c = lib.circuit(spec, [])
    cols = fsc.CollectionOfStateColumns(collection_of_states=lib.collection(c, spec, case['states']))
    if case['which'] > 0:
        cols.split()
    if case['which'] > 1:
        cols.single_photon_states()
    info = {'time_delay': case['info'][0], 'pulse_width': case['info'][1]}
    for k, col in enumerate(cols.by_column()):
        if k % 2 == 0:
            col.set_photon_information(photon_information=dict(info))
    again = fsc.CollectionOfStateColumns(collection_of_states=cols.generate_collection_of_states())
    if case['late']:
        again = again.new_instance_from_state_information()

    def view(x):
        out = []
        for init, groups in x.as_dictionary().items():
            for gid, g in groups.items():
                for col in g:
                    out.append((init, gid, round(g.group_cumulative_probability, 9), col.column_identifier, complex(col.column_amplitude), round(col.column_boson_factor, 9),
                                tuple((tuple(sorted(s.optical_components)), round(s.cumulative_probability, 9), tuple(s.classical_channel_values),
                                       repr(s.auxiliary_information['photon_resolution'].get('photon_information'))) for s in col)))
        return out
    a, b = view(cols), view(again)
    lib.need(a == b, 'columns changed:\n%s\n%s' % (a, b))
    n = len(list(cols.by_state()))
    lib.need(n == len(cols.generate_collection_of_states()), 'number of states')
    for s, t in zip(cols.by_state(), again.by_state()):
        lib.need(s is not t, 'states are shared')
    # the same without any states
    empty = lib.collection(c, spec, case['states'])
    empty.clear()
    none = fsc.CollectionOfStateColumns(collection_of_states=empty)
    for do in (none.split, none.single_photon_states)[:case['which']]:
        do()
    out = (none.new_instance_from_state_information() if case['late'] else none).generate_collection_of_states()
    lib.need(out is not None and len(out) == 0 and out is not empty, 'columns without states give %r instead of an empty collection' % (out,))
    out.add_state(next(iter(lib.collection(c, spec, case['states']))).copy())
    lib.need(len(out) == 1 and len(empty) == 0, 'the collection made from no columns is shared')
    ctx.label('which%d' % case['which'])
    ctx.nt(case['which'] > 0 and any(len(s['comps']) > 1 and any(max(v) > 1 for v, a in s['comps']) for s in case['states']))


@st.composite
def gate_cases(draw):
    L, N = draw(G.dims(100, Lmax=4, Nmax=4))
    states = [dict(draw(G.state(L, N, 1, None, max_terms=draw(st.sampled_from([1, 2, 4, 6])))), init='s%d' % k) for k in range(draw(st.integers(1, 2)))]
    nodes = draw(st.lists(G.optical_node(N, custom=False), min_size=1, max_size=3))
    return dict(L=L, N=N, C=1, left=draw(st.booleans()), thr=1e-12, states=states, nodes=nodes, again=draw(st.booleans()),
                late=draw(st.lists(G.optical_node(N, custom=False), min_size=0, max_size=2)), photons=draw(st.booleans()))


def check_gates(case, ctx):
    """Optical nodes on the columns of a split collection, with the columns composed afterwards, give the result of the nodes on the states: columns with the same component interfere."""
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    want = {s.initial_state: lib.Read('direct', s, case) for s in c.evaluate_circuit(collection_of_states_input=coll)}
    cols = fsc.CollectionOfStateColumns(collection_of_states=coll.copy())
    cols.split()
    out = c.evaluate_circuit(collection_of_states_input=cols.generate_collection_of_states())
    if case['again']:                                # the columns are taken apart again and go through more nodes
        cols = fsc.CollectionOfStateColumns(collection_of_states=out)
        cols.split()
        d = lib.circuit(dict(case, nodes=case['late']))
        out = d.evaluate_circuit(collection_of_states_input=cols.generate_collection_of_states())
        want = {k: lib.Read('direct', s, case) for k, s in ((x.initial_state, x) for x in d.evaluate_circuit(
            collection_of_states_input=c.evaluate_circuit(collection_of_states_input=coll)))}
    cols = fsc.CollectionOfStateColumns(collection_of_states=out)
    n, twice = 0, False
    for g in cols.by_group():
        if case['photons']:
            g.split_columns()
            g.single_photon_states()
        names = [col.generate_optical_component_corresponding_to_column() for col in g] if case['photons'] else []
        twice |= len(set(names)) < len(names) or len(g) > 1
        got = lib.Read('composed', g.generate_single_state_from_interference_group(), case)
        lib.need(got.init in want, 'no state %r' % got.init)
        ref = want[got.init]
        lib.close(aligned(got.comps, ref.comps), ref.comps, 5e-4, 'composed after %s' % case['nodes'])
        lib.need(abs(got.cum - ref.cum) < 1e-6 and got.cl == ref.cl, 'probability or values of the composed state')
        n += 1
    lib.need(n == len(case['states']), '%d groups for %d states' % (n, len(case['states'])))
    ctx.nt(twice and any(len(s['comps']) > 1 for s in case['states']))


SCALE = 5
FACETS = [Facet('split', cases(), check_split, 320, 6000), Facet('collection', cases(), check_collection, 320, 6000),
          Facet('gates', gate_cases(), check_gates, 240, 4000)]
