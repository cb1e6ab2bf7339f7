"""Component names are a bijection with photon numbers and the basis order does not depend on the history."""
from hypothesis import strategies as st
import fock_state_circuit as fsc
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet

RULE = ('a case is a circuit geometry and a history of lookups; it is non-trivial when at least three lookups precede the inspection of the basis '
        'or the geometry has at least two channels and is not the default notation')


@st.composite
def geometry(draw, limit):
    L = draw(st.one_of(st.integers(2, 6), st.integers(2, 13), st.sampled_from([9, 10, 11, 12, 100, 101, 115])))
    N = 1
    while N < 6 and L ** (N + 1) <= limit:
        N += 1
    return L, draw(st.integers(1, N))


@st.composite
def history(draw):
    L, N = draw(geometry(700))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.sampled_from(['get', 'index', 'contains', 'vget', 'vindex', 'vcontains']), G.values(L, N)),
        st.tuples(st.sampled_from(['at', 'vat']), st.integers(0, L ** N - 1)),
        st.tuples(st.just('bad'), st.sampled_from(['short', 'long', 'big', 'alpha', 'empty'])),
        st.tuples(st.sampled_from(['keys', 'vkeys', 'len']), st.just(0))).map(list), min_size=0, max_size=8))
    return dict(L=L, N=N, left=draw(st.booleans()), ops=ops)


def bad_name(kind, L, N, left):
    good = O.name_of([0] * N, L, left)
    if kind == 'short':
        return good[:-O.digits(L)] or 'x'
    if kind == 'long':
        return good + '0' * O.digits(L)
    if kind == 'big':
        return None if L == 10 ** O.digits(L) else O.name_of([0] * (N - 1), L, left) + str(L).zfill(O.digits(L))
    if kind == 'alpha':
        return 'a' * len(good)
    return '_'


def inspect(names, values, L, N, left):
    want = [O.values_at(k, L, N) for k in range(L ** N)]
    wn = [O.name_of(v, L, left) for v in want]
    lib.need(list(names.keys()) == wn, 'component names are not in the standard order')
    lib.need([tuple(v) for v in names.values()] == want, 'values of the component names are not in the standard order')
    lib.need(list(names) == wn and len(names) == L ** N, 'iteration over the names')
    lib.need([tuple(v) for v in values.keys()] == want, 'optical values are not in the standard order')
    lib.need(list(values.values()) == wn, 'names of the optical values are not in the standard order')


def check_history(case, ctx):
    """Any sequence of lookups by name, values or index, valid or not, against positional notation."""
    L, N, left = case['L'], case['N'], case['left']
    names = fsc.ComponentNames(length_of_fock_state=L, no_of_optical_channels=N, channel_0_left_in_state_name=left)
    values = fsc.OpticalValues(names)
    for op, arg in case['ops']:
        if op in ('at', 'vat'):
            v = O.values_at(arg, L, N)
            lib.need(names.at_index(arg) == O.name_of(v, L, left), 'at_index(%d) is %r' % (arg, names.at_index(arg)))
            lib.need(tuple(values.at_index(arg)) == v, 'optical values at index %d are %r' % (arg, values.at_index(arg)))
        elif op == 'bad':
            b = bad_name(arg, L, N, left)
            if b is not None:
                lib.need(b not in names, 'invalid name %r is accepted' % b)
        elif op == 'keys':
            list(names.keys())
        elif op == 'vkeys':
            list(values.keys())
        elif op == 'len':
            lib.need(len(names) == L ** N, 'number of names')
        else:
            v, name, k = tuple(arg), O.name_of(arg, L, left), O.index_of(arg, L)
            got = {'get': lambda: tuple(names[name]) == v, 'index': lambda: names.index_of(name) == k, 'contains': lambda: name in names,
                   'vget': lambda: values[v] == name, 'vindex': lambda: values.index_of(v) == k, 'vcontains': lambda: v in values}[op]()
            lib.need(got, '%s of %s (%r) is wrong' % (op, v, name))
    inspect(names, values, L, N, left)
    ctx.label('digits%d' % O.digits(L), 'left' if left else 'right')
    ctx.nt(len(case['ops']) >= 3 or (N > 1 and not left))


@st.composite
def circuits(draw):
    L, N = draw(geometry(300).filter(lambda g: g[0] < 17))
    N = max(N, 2)
    k = draw(st.integers(0, 3))
    return dict(L=L, N=N, left=draw(st.booleans()), full=False, states=[draw(G.values(L, N)) for _ in range(k)],
                use=draw(st.sampled_from(['none', 'vector', 'evaluate', 'outer', 'read'])))


def check_circuit(case, ctx):
    """Default collections, basis() and state vectors list the basis in standard order, whatever the circuit was used for before."""
    L, N, left = case['L'], case['N'], case['left']
    c = lib.circuit(case)
    if case['use'] == 'evaluate' and N >= 2:
        c.swap(0, 1)
    if case['states'] and case['use'] != 'none':
        coll = lib.collection(c, case, [dict(init='s%d' % i, comps=[[v, [1.0, 0.0]]]) for i, v in enumerate(case['states'])])
        for s in coll:
            if case['use'] == 'vector':
                s.translate_state_components_to_vector()
            elif case['use'] == 'read':
                s.photon_number()
        if case['use'] == 'evaluate':
            c.evaluate_circuit(coll)
    want = [O.values_at(k, L, N) for k in range(L ** N)]
    wn = [O.name_of(v, L, left) for v in want]
    b = c.basis()
    lib.need(list(b.keys()) == wn and [tuple(v) for v in b.values()] == want, 'basis() is not in standard order: %s' % list(b.items())[:8])
    coll = fsc.CollectionOfStates(fock_state_circuit=c)
    lib.need([s.initial_state for s in coll] == wn, 'default collection is not in standard order')
    lib.need(coll.generate_allowed_components_names_as_list_of_strings() == wn, 'list of allowed names')
    for k, r in enumerate(lib.read(coll, case)):
        lib.close(r.comps, {want[k]: 1}, 1e-9, 'default state %d' % k)
        lib.need(abs(r.cum - 1) < 1e-9 and not any(r.cl) and not r.hist, 'default state %d is not fresh' % k)
    k = len(want) // 2 + len(case['states'])
    k = min(k, len(want) - 1)
    vec, basis = list(coll)[k].translate_state_components_to_vector()
    lib.need(len(vec) == L ** N and abs(vec[k] - 1) < 1e-9 and sum(abs(x) for x in vec) < 1 + 1e-9, 'state vector of basis state %d' % k)
    lib.need(list(basis) == wn, 'basis of the state vector')
    ctx.label(case['use'], 'digits%d' % O.digits(L))
    ctx.nt(len(want) > 4 and (not left or bool(case['states'])))


SCALE = 5
FACETS = [Facet('history', history(), check_history, 800, 30000), Facet('circuit', circuits(), check_circuit, 400, 10000)]
