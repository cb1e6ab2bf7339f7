"""State algebra: vectors, inner, outer and tensor products, copies and setting of components."""
import math
import numpy as np
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet

RULE = 'a case is one or two states of a circuit geometry; it is non-trivial when a state has at least two components'


@st.composite
def two(draw):
    L, N = draw(G.dims(260, Lmax=5, Nmax=4))
    if draw(st.integers(0, 7)) == 0:
        L, N = draw(st.integers(10, 12)), 2
    x = draw(G.comps(L, N))
    y = draw(G.comps(L, N))
    if draw(st.booleans()):      # make an overlap likely
        y = [[v, a] for v, a in (x[:2] + y)]
        d = {}
        for v, a in y:
            d[tuple(v)] = complex(*a)
        n = math.sqrt(O.norm2(d))
        y = [[list(v), [a.real / n, a.imag / n]] for v, a in d.items()]
    return dict(L=L, N=N, C=0, left=draw(st.booleans()), full=False, x=x, y=y)


def make(case, comps, c=None, spec=None):
    spec = spec or case
    c = c or lib.circuit(spec, [])
    coll = fsc.CollectionOfStates(fock_state_circuit=c, input_collection_as_a_dict=dict([]))
    return lib.state(coll, spec, dict(init='s', comps=comps))


def vec(comps, L, N):
    v = np.zeros(L ** N, dtype=complex)
    for w, a in comps:
        v[O.index_of(w, L)] += complex(*a)
    return v


def comps_read(st_, case):
    return lib.Read('s', st_, case).comps


def check_products(case, ctx):
    """Inner and outer product of two states against vectors."""
    L, N = case['L'], case['N']
    c = lib.circuit(case, [])
    x, y = make(case, case['x'], c), make(case, case['y'], c)
    vx, vy = vec(case['x'], L, N), vec(case['y'], L, N)
    w = complex(x.inner(y))
    lib.need(abs(w - np.vdot(vx, vy)) < 1e-9, 'inner product %s, expected %s' % (w, np.vdot(vx, vy)))
    lib.need(abs(complex(y.inner(x)) - w.conjugate()) < 1e-9, 'inner product is not conjugate symmetric')
    lib.need(abs(complex(x.inner(x)) - 1) < 1e-9, 'norm is %s' % x.inner(x))
    o = np.asarray(x.outer(y))
    lib.need(o.shape == (L ** N, L ** N) and np.abs(o - np.outer(vx.conj(), vy)).max() < 1e-9, 'outer product')
    lib.close(comps_read(x, case), {tuple(v): complex(*a) for v, a in case['x']}, 1e-12, 'state after taking products')
    ctx.nt(len(case['x']) > 1 and abs(w) > 1e-6)


def check_vector(case, ctx):
    """State to vector and back, in the order of the basis."""
    L, N = case['L'], case['N']
    c = lib.circuit(case, [])
    x, y = make(case, case['x'], c), make(case, case['y'], c)
    v, basis = x.translate_state_components_to_vector()
    lib.need(np.abs(np.asarray(v) - vec(case['x'], L, N)).max() < 1e-12, 'vector of the state')
    lib.need(list(basis) == [O.name_of(O.values_at(k, L, N), L, case['left']) for k in range(L ** N)], 'basis of the vector')
    y.set_state_components_from_vector(list(v))
    lib.close(comps_read(y, case), {tuple(w): complex(*a) for w, a in case['x']}, 1e-9, 'state set from a vector')
    n, same = x.photon_number()
    totals = [sum(w) for w, a in case['x']]
    lib.need(n == max(totals) and same == (len(set(totals)) == 1), 'photon_number() is %s for totals %s' % ((n, same), totals))
    ctx.nt(len(case['x']) > 1)


@st.composite
def tensors(draw):
    L, N = draw(G.dims(64, Lmax=4, Nmax=3))
    if draw(st.integers(0, 7)) == 0:
        L, N = draw(st.integers(10, 12)), 2
    N2 = draw(st.integers(2, 3 if L < 5 else 2))
    y, form = draw(G.comps(L, N2)), draw(st.sampled_from(['state', 'list', 'dict']))
    if form == 'list' and draw(st.booleans()):      # a component in parts
        k = draw(st.integers(0, len(y) - 1))
        a = [draw(st.sampled_from([0.25, -0.5])), 0.0]
        y = list(y) + [[y[k][0], a]]
    return dict(L=L, N=N, N2=N2, C=0, left=draw(st.booleans()), full=False, x=draw(G.comps(L, N)), y=y, form=form)


def check_tensor(case, ctx):
    """Tensor product with a state, a list or a dictionary: channels of the argument follow those of the state."""
    L, N, N2, left = case['L'], case['N'], case['N2'], case['left']
    x = make(case, case['x'])
    spec2 = dict(case, N=N2)
    y = make(case, case['y'], spec=spec2)
    arg = {'state': y, 'list': [(O.name_of(v, L, left), complex(*a)) for v, a in case['y']],
           'dict': {O.name_of(v, L, left): {'amplitude': complex(*a), 'probability': abs(complex(*a)) ** 2} for v, a in case['y']}}[case['form']]
    got = x.tensor(arg)
    want = {}
    for v, a in case['x']:
        for w, b in case['y']:
            k = tuple(v) + tuple(w)
            want[k] = want.get(k, 0) + complex(*a) * complex(*b)
    spec3 = dict(case, N=N + N2)
    res = {}
    for name, ap in got.items():
        res[O.values_of(name, L, left)] = complex(ap['amplitude'])
        lib.need(abs(ap['probability'] - abs(ap['amplitude']) ** 2) < 1e-9, 'probability of %s' % name)
    lib.close(res, want, 1e-9, 'tensor product (%s)' % case['form'])
    big = lib.circuit(spec3, [])
    coll = fsc.CollectionOfStates(fock_state_circuit=big, input_collection_as_a_dict=dict([]))
    z = fsc.State(collection_of_states=coll)
    z.optical_components = got
    lib.close(comps_read(z, spec3), want, 1e-9, 'state set from a tensor product')
    lib.close(comps_read(x, case), {tuple(v): complex(*a) for v, a in case['x']}, 1e-12, 'state after tensor product')
    ctx.label(case['form'], 'digits%d' % O.digits(L))
    ctx.nt(len(case['x']) > 1)


@st.composite
def copies(draw):
    L, N = draw(G.dims(130, Lmax=5, Nmax=4))
    C = draw(st.integers(0, 3))
    s = draw(G.state(L, N, C))
    s['hist'] = [[[float(draw(st.integers(0, 2))) for _ in range(C)], 0.5] for _ in range(draw(st.integers(0, 2)))]
    return dict(L=L, N=N, C=C, left=draw(st.booleans()), full=False, s=s, aux=draw(st.booleans()), via=draw(st.sampled_from(['state', 'collection', 'initialized'])),
                names=[draw(G.values(L, N)) for _ in range(draw(st.integers(1, 4)))], amps=[draw(G.amp) for _ in range(4)])


def check_copy(case, ctx):
    """A copy is equal and independent; a new initialised state is vacuum with probability 1."""
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, [dict(case['s'], id='one')])
    s = coll['one']
    if case['aux']:
        s.auxiliary_information = {'note': [1, [2, 3]]}
    snap = lib.snapshot(coll)
    if case['via'] == 'initialized':
        t = s.create_initialized_state()
        r = lib.Read('t', t, case)
        lib.close(r.comps, {(0,) * case['N']: 1}, 1e-12, 'initialised state')
        lib.need(r.cum == 1 and not any(r.cl) and r.hist == [] and r.init == O.name_of([0] * case['N'], case['L'], case['left']), 'initialised state has other contents')
    else:
        t = s.copy() if case['via'] == 'state' else coll.copy()['one']
        one = fsc.CollectionOfStates(fock_state_circuit=c, input_collection_as_a_dict=dict([]))
        one.add_state(t, identifier='one')
        lib.need(lib.snapshot(one) == snap, 'the copy differs\n original %s\n copy     %s' % (snap, lib.snapshot(one)))
    for name in list(t.optical_components):
        t.optical_components[name]['amplitude'] = 9
    t.optical_components.clear()
    for k in range(case['C']):
        t.classical_channel_values[k] = 99
    for h in t.measurement_results:
        h['probability'] = 77
        h['measurement_results'].append(1)
    t.measurement_results.append({'measurement_results': [1], 'probability': 1.0})
    if case['aux'] and case['via'] != 'initialized':
        t.auxiliary_information['note'][1].append(4)
    t.initial_state, t.cumulative_probability = 'other', 0.125
    lib.need(lib.snapshot(coll) == snap, 'a change of the copy shows in the original\n before %s\n after  %s' % (snap, lib.snapshot(coll)))
    ctx.label(case['via'])
    ctx.nt(len(case['s']['comps']) > 1)


def check_set(case, ctx):
    """Components set from a list of (name, amplitude) add up for repeated names."""
    L, left = case['L'], case['left']
    c = lib.circuit(case, [])
    s = lib.collection(c, case, [dict(case['s'], id='one')])['one']
    lst = [(O.name_of(v, L, left), complex(*a) / 40) for v, a in zip(case['names'], case['amps'])]
    lst = lst + lst[:1]
    s.optical_components = lst
    want = {}
    for name, a in lst:
        v = O.values_of(name, L, left)
        want[v] = want.get(v, 0) + a
    lib.close(comps_read(s, case), want, 1e-9, 'components set from a list')
    for name, ap in s.optical_components.items():
        lib.need(abs(ap['probability'] - abs(want[O.values_of(name, L, left)]) ** 2) < 1e-9, 'probability of %s' % name)
    ctx.nt(len(want) > 1)


SCALE = 5
FACETS = [Facet('products', two(), check_products, 240, 8000), Facet('vector', two(), check_vector, 240, 8000),
          Facet('tensor', tensors(), check_tensor, 240, 8000), Facet('copy', copies(), check_copy, 240, 8000), Facet('set', copies(), check_set, 160, 4000)]
