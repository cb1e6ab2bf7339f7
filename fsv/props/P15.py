"""A collection of states behaves like an ordered dictionary of states under its container operations."""
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet

RULE = ('a case is a history of container operations on a collection; it is non-trivial when at least three operations change the model '
        'and the collection held at least two states at some point')

SPEC = dict(L=2, N=2, C=2, full=False)
INITS = ['a', 'ab', 'b']          # names that are part of other names
IDS = ['i0', 'i', 'i01', '0', 'i2']


@st.composite
def histories(draw):
    state = st.tuples(st.sampled_from(INITS), st.integers(0, 3), st.lists(st.integers(0, 1), min_size=2, max_size=2), st.sampled_from([1.0, 0.5, 0.25]))
    op = st.one_of(
        st.tuples(st.just('add'), st.sampled_from(IDS + [None, None]), state),
        st.tuples(st.just('add'), st.sampled_from(IDS + [None, None]), state),
        st.tuples(st.just('del'), st.sampled_from(IDS + ['nope'])),
        st.tuples(st.just('delinit'), st.sampled_from(INITS + ['nope'])),
        st.tuples(st.just('finit'), st.one_of(st.sampled_from(INITS).map(lambda x: [x]), st.lists(st.sampled_from(INITS + ['nope']), max_size=3)), st.booleans()),
        st.tuples(st.just('fid'), st.one_of(st.sampled_from(IDS).map(lambda x: [x]), st.lists(st.sampled_from(IDS + ['nope']), max_size=5)), st.booleans()),
        st.tuples(st.just('fclass'), st.permutations([0, 1]).map(list) | st.sampled_from([[0, 0], [1, 1]]), st.lists(st.integers(0, 1), min_size=1, max_size=2)),
        st.tuples(st.just('get'), st.sampled_from(IDS + ['nope'])),
        st.tuples(st.just('getinit'), st.sampled_from(INITS + ['nope']), st.none() | st.sampled_from(IDS + ['nope'])),
        st.tuples(st.just('copy'), st.booleans()),
        st.tuples(st.just('template'), st.just(0)),
        st.tuples(st.just('clear'), st.integers(0, 3)),
        st.tuples(st.just('mixture'), st.lists(st.tuples(state, st.sampled_from([0.5, 0.25, 0.125])), min_size=1, max_size=40 if draw(st.integers(0, 9)) == 0 else 4)),
        st.tuples(st.just('default'), st.integers(0, 3)),
        st.tuples(st.just('dict'), st.lists(st.tuples(st.sampled_from(IDS), state), max_size=4)),
        st.tuples(st.just('flag'), st.booleans()),
        st.tuples(st.just('edit'), st.integers(0, 4), st.integers(5, 9)))
    n = draw(st.integers(1, 3))
    start = [['add', i, list(draw(state))] for i in draw(st.permutations(IDS))[:draw(st.sampled_from([0, 2, 4, 5]))]]
    return dict(SPEC, left=draw(st.booleans()), ops=start + draw(st.lists(op, min_size=n, max_size=14)))


def new(coll, spec, s):
    init, k, cl, cum = s
    v = O.values_at(k, 2, 2)
    return lib.state(coll, spec, dict(init=init, comps=[[list(v), [1.0, 0.0]]], cl=list(cl), cum=cum)), (init, v, [float(x) for x in cl], cum)


def look(coll, spec, model, what):
    lib.need(coll.state_identifiers_as_list() == list(model), '%s: identifiers %s, expected %s' % (what, coll.state_identifiers_as_list(), list(model)))
    lib.need(list(coll.keys()) == list(model) and len(coll) == len(model), '%s: keys or length' % what)
    lib.need(coll.initial_states_as_list() == [m[0] for m in model.values()], '%s: initial states' % what)
    lib.need(list(coll.collection_as_dict()) == list(model), '%s: collection_as_dict' % what)
    got = lib.read(coll, spec)
    by_iter = list(coll)
    for k, (g, m) in enumerate(zip(got, model.values())):
        lib.need((g.init, g.cl, g.cum) == (m[0], m[2], m[3]) and O.distance(g.comps, {tuple(m[1]): 1}) < 1e-12,
                 '%s: state %s is %s, expected %s' % (what, g.id, (g.init, lib.show(g.comps), g.cl, g.cum), m))
        lib.need(coll[g.id] is coll.get_state(identifier=g.id) and coll[k] is coll[g.id] and by_iter[k] is coll[g.id],
                 '%s: access by identifier, position and iteration give different states' % what)


def check(case, ctx):
    """Histories of add, delete, filter, get, copy, clear, mixture and loading, against an ordered dictionary."""
    c = lib.circuit(case, [])
    coll = fsc.CollectionOfStates(fock_state_circuit=c, input_collection_as_a_dict=dict([]))
    model, steps, big = {}, 0, False
    saved, flag = None, coll.print_only_last_measurement
    for op, *a in case['ops']:
        before = dict(model)
        if op == 'add':
            s, m = new(coll, case, a[1])
            ids = set(coll.keys())
            coll.add_state(s) if a[0] is None else coll.add_state(s, identifier=a[0])
            if a[0] is None:
                fresh = [k for k in coll.keys() if k not in ids]
                lib.need(len(fresh) == 1 and list(coll.keys())[-1] == fresh[0], 'adding a state without identifier adds %d states' % len(fresh))
                model[fresh[0]] = m
            else:
                model[a[0]] = m
        elif op == 'del':
            coll.delete_state(identifier=a[0])
            model.pop(a[0], None)
        elif op == 'delinit':
            coll.delete_state(initial_state=a[0])
            for k, m in model.items():
                if m[0] == a[0]:
                    del model[k]
                    break
        elif op == 'finit':
            arg = a[0] if a[1] or len(a[0]) != 1 else a[0][0]
            coll.filter_on_initial_state(arg)
            model = {k: m for k, m in model.items() if m[0] in a[0]}
        elif op == 'fid':
            arg = a[0] if a[1] or len(a[0]) != 1 else a[0][0]
            coll.filter_on_identifier(arg)
            model = {k: m for k, m in model.items() if k in a[0]}
        elif op == 'fclass':
            ch = a[0][:len(a[1])]
            coll.filter_on_classical_channel(classical_channel_numbers=ch, values_to_filter=a[1])
            model = {k: m for k, m in model.items() if all(m[2][x] == v for x, v in zip(ch, a[1]))}
        elif op == 'get':
            s = coll.get_state(identifier=a[0])
            lib.need((s is None) == (a[0] not in model), 'get_state(%r)' % a[0])
            if s is not None:
                lib.need(s.initial_state == model[a[0]][0], 'get_state(%r) returns another state' % a[0])
        elif op == 'getinit':
            s = coll.get_state(initial_state=a[0]) if a[1] is None else coll.get_state(identifier=a[1], initial_state=a[0])
            first = a[1] if a[1] in model else next((k for k, m in model.items() if m[0] == a[0]), None)
            lib.need((s is None) == (first is None), 'get_state(%r, initial_state=%r)' % (a[1], a[0]))
            if s is not None:
                lib.need(s is coll[first], 'get_state(%r, initial_state=%r) is not the first one' % (a[1], a[0]))
        elif op == 'copy':
            other = coll.copy()
            look(other, case, model, 'copy')
            lib.need(other.print_only_last_measurement == flag, 'a copy has another setting for print_only_last_measurement')
            saved = (coll, dict(model))
            if a[0]:
                coll = other
        elif op == 'template':
            t = coll.copy(empty_template=True)
            lib.need(len(t) == 0 and list(t) == [], 'empty template holds states')
            lib.need(t.print_only_last_measurement == flag, 'an empty template has another setting for print_only_last_measurement')
        elif op == 'flag':
            coll.print_only_last_measurement = flag = a[0]
        elif op == 'clear':
            if a[0] == 0:
                coll.clear()
                model = {}
        elif op == 'default':
            if a[0] == 0:
                coll.initialize_to_default()
                lib.need([s.initial_state for s in coll] == [O.name_of(O.values_at(k, 2, 2), 2, case['left']) for k in range(4)], 'default states')
                model = {k: (s.initial_state, O.values_of(s.initial_state, 2, case['left']), [0.0, 0.0], 1.0) for k, s in coll.items()}
        elif op == 'mixture':
            lst = [(new(coll, case, s), w) for s, w in a[0]]
            coll.set_collection_as_statistical_mixture([(s[0], w) for s, w in lst])
            lib.need(len(coll) == len(lst), 'mixture of %d states has %d states' % (len(lst), len(coll)))
            inits = {s.initial_state for s in coll}
            lib.need(len(inits) == 1, 'states of a mixture have different initial states')
            name = inits.pop()
            model = {k: (name, m[1], m[2], w) for k, ((s, m), w) in zip(coll.keys(), lst)}
        elif op == 'dict':
            d, model = {}, {}
            for k, s in a[0]:
                d[k], model[k] = new(coll, case, s)
            coll.collection_from_dict(d)
        elif op == 'edit':
            if a[0] < len(model):
                k = list(model)[a[0]]
                coll[k].classical_channel_values = [a[1], 0]
                m = model[k]
                model[k] = (m[0], m[1], [float(a[1]), 0.0], m[3])
        steps += model != before
        big = big or len(model) > 1
        look(coll, case, model, op)
        ctx.label(op)
    if saved is not None and saved[0] is not coll:
        look(saved[0], case, saved[1], 'original of a copy that was changed')
    ctx.nt(steps >= 3 and big)


SCALE = 3
FACETS = [Facet('container', histories(), check, 1600, 30000)]
