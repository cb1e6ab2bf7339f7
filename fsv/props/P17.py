"""Density matrices and clean_up describe the mixture that the collection holds."""
import numpy as np
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = 'a case is a mixture of states; it is non-trivial when an initial state has at least two states with different components'


def rho(states, L, N):
    """Density matrix by explicit summation in the convention of the library: element [i][j] is sum of weight * conj(v_i) * v_j."""
    out = {}
    for s in states:
        d = out.setdefault(s.init, np.zeros((L ** N, L ** N), dtype=complex))
        for v, a in s.comps.items():
            for w, b in s.comps.items():
                d[O.index_of(v, L), O.index_of(w, L)] += s.cum * complex(a).conjugate() * complex(b)
    return out


@st.composite
def mixtures(draw, thr=False):
    L, N = draw(G.dims(130, Lmax=5, Nmax=4))
    n = draw(st.integers(1, 6))
    sts = []
    name = st.sampled_from(draw(st.sampled_from([['a', 'b'], ['a', 'b'], ['a', 'ab'], ['a', 'A', 'ba'], ['a', 'a-a', 'aa']])))      # also names that contain each other
    for _ in range(n):
        if sts and draw(st.integers(0, 2)) == 0:
            s = dict(draw(st.sampled_from(sts)), init=draw(name))
            if draw(st.booleans()):            # a relative: same components with other phases or amplitudes swapped
                cs = [list(x) for x in s['comps']]
                if draw(st.booleans()):
                    k = draw(st.integers(0, len(cs) - 1))
                    z = complex(*cs[k][1]) * draw(st.sampled_from([-1, 1j, -1j, 0.6 + 0.8j]))
                    cs[k][1] = [z.real, z.imag]
                else:
                    cs = [[v, a] for (v, _), (_, a) in zip(cs, cs[1:] + cs[:1])]
                s['comps'] = cs
        else:
            s = dict(draw(G.state(L, N, 1)), init=draw(name))
        s['cum'] = draw(st.sampled_from([0.16, 0.125, 0.0625, 0.1, 0.03]))
        sts.append(s)
    if draw(st.integers(0, 5)) == 0:        # many states
        for k in draw(st.lists(st.integers(0, len(sts) - 1), min_size=5, max_size=20)):
            v = draw(G.values(L, N))
            sts.append(dict(sts[k], init=draw(st.sampled_from('abc')), cum=0.03) if draw(st.booleans()) else
                       dict(sts[k], comps=[[list(v), [1.0, 0.0]]], init=draw(st.sampled_from('abc')), cum=0.03))
    return dict(L=L, N=N, C=1, left=draw(st.booleans()), full=False, states=sts, only=draw(st.sampled_from(['', '', 'a'])),
                places=draw(st.integers(1, 6)))


def dm_of(coll, case, **kw):
    return {k: v for k, v in coll.density_matrix(**kw).items()}


def check_dm(case, ctx):
    """density_matrix and its traces per initial state against explicit summation."""
    L, N = case['L'], case['N']
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    snap = lib.snapshot(coll)
    want = rho([lib.model(s, 1) for s in case['states']], L, N)
    if case['only']:
        if case['only'] not in want:
            return
        want = {case['only']: want[case['only']]}
        got = coll.density_matrix(initial_state=case['only'], decimal_places_for_trace=case['places'])
    else:
        got = coll.density_matrix(decimal_places_for_trace=case['places'])
    lib.need(set(got) == set(want), 'density matrices for %s, expected %s' % (sorted(got), sorted(want)))
    for k, w in want.items():
        g = np.asarray(got[k]['density_matrix'])
        lib.need(g.shape == w.shape and np.abs(g - w).max() < 1e-9, 'density matrix of %s' % k)
        tol = 0.5 * 10 ** -case['places'] + 1e-9
        lib.need(abs(got[k]['trace'] - np.trace(w).real) <= tol, 'trace of %s is %s, expected %s' % (k, got[k]['trace'], np.trace(w).real))
        p = np.trace(w @ w).real
        lib.need(abs(got[k]['trace_dm_squared'] - p) <= tol, 'trace of the square of %s is %s, expected %s' % (k, got[k]['trace_dm_squared'], p))
    lib.need(lib.snapshot(coll) == snap, 'density_matrix changed the collection')
    ctx.nt(any(sum(s['init'] == k for s in case['states']) > 1 for k in want))


@st.composite
def evolved(draw):
    m = draw(mixtures())
    return dict(m, nodes=draw(st.lists(G.optical_node(m['N']), min_size=1, max_size=3)))


def check_evolved(case, ctx):
    """Optical nodes transform the density matrix unitarily: trace and purity stay the same."""
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    a = coll.density_matrix(decimal_places_for_trace=5)
    b = c.evaluate_circuit(coll).density_matrix(decimal_places_for_trace=5)
    lib.need(set(a) == set(b), 'initial states changed')
    for k in a:
        for t in ('trace', 'trace_dm_squared'):
            lib.need(abs(a[k][t] - b[k][t]) < 5e-4, '%s of %s changes from %s to %s' % (t, k, a[k][t], b[k][t]))
        U, V = np.asarray(a[k]['density_matrix']), np.asarray(b[k]['density_matrix'])
        lib.need(np.abs(V - V.conj().T).max() < 1e-6 and np.abs(U - U.conj().T).max() < 1e-9, 'density matrix is not Hermitian')
        e1, e2 = np.sort(np.linalg.eigvalsh(U)), np.sort(np.linalg.eigvalsh(V))
        lib.need(e2[0] > -1e-5 and np.abs(e1 - e2).max() < 5e-4, 'eigenvalues of the density matrix changed')
    ctx.nt(len(case['states']) > 1)


@st.composite
def messy(draw):
    m = draw(mixtures())
    small = draw(st.lists(st.tuples(st.integers(0, len(m['states']) - 1), G.values(m['L'], m['N']), st.sampled_from([0.002, 0.005])), max_size=3))
    for k, v, a in small:
        s = m['states'][k]
        if all(list(w) != v for w, _ in s['comps']):
            m['states'][k] = dict(s, comps=s['comps'] + [[v, [a, 0.0]]])
    if draw(st.booleans()):
        m['states'].append(dict(m['states'][0], cum=0.00003, init='c'))
    return dict(m, thr=1e-4)


def check_cleanup(case, ctx):
    """clean_up merges equal states, removes negligible components and states, and leaves the density matrices (of the rest) unchanged."""
    L, N, thr = case['L'], case['N'], case['thr']
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    before = lib.read(coll, case)
    kw = dict(initial_state=case['only']) if case['only'] else {}
    coll.clean_up(**kw)
    got = lib.read(coll, case)
    touched = lambda s: not case['only'] or s.init == case['only']
    a, b = rho(before, L, N), rho(got, L, N)
    for k in a:
        weight = sum(s.cum for s in before if s.init == k)
        if weight < thr:
            if k in b and (not case['only'] or case['only'] == k):
                lib.need(False, 'states with probability %g are kept' % weight)
            continue
        lib.need(k in b, 'initial state %s disappeared' % k)
        lib.need(np.abs(a[k] - b[k]).max() < 2e-2 * max(1e-3, weight), 'clean_up changes the density matrix of %s by %g' % (k, np.abs(a[k] - b[k]).max()))
    for g in got:
        if touched(g):
            lib.need(abs(O.norm2(g.comps) - 1) < 3e-4 and g.cum >= thr, 'state is not normalised or negligible after clean_up')
            lib.need(all(abs(x) ** 2 >= thr * 0.999 for x in g.comps.values()), 'negligible component is kept')
    for i, g in enumerate(got):
        for h in got[:i]:
            if touched(g) and touched(h) and g.init == h.init:
                lib.need(O.distance(g.comps, h.comps) > 1e-3, 'two equal states are left for %s: %s' % (g.init, lib.show(g.comps)))
    ids = {s.id: s for s in before}
    lib.need(all(g.id in ids and ids[g.id].init == g.init for g in got), 'clean_up changed identifiers or initial states')
    for s in before:
        if not touched(s):
            lib.need(any(g.id == s.id and g.cum == s.cum and O.distance(g.comps, s.comps) < 1e-12 for g in got), 'state with another initial state was changed')
    for g in got:                      # what the merged states have in common is kept
        same = [s for s in before if s.init == g.init and O.distance(s.comps, g.comps) < 0.05]
        for k in ('cl', 'hist'):
            lib.need(any(getattr(s, k) == getattr(g, k) for s in same + [ids[g.id]]), 'classical values or history of %s after clean_up: %s' % (g.id, getattr(g, k)))
    snap = lib.snapshot(coll)
    coll.clean_up(**kw)
    again = lib.read(coll, case)
    lib.need([x.id for x in again] == [x.id for x in got] and all(O.distance(x.comps, y.comps) < 1e-3 for x, y in zip(again, got)), 'clean_up is not idempotent')
    ctx.label('merged' if len(got) < len(before) else 'kept')
    ctx.nt(len(got) < len(before) or any(len(x.comps) < len(ids[x.id].comps) for x in got))


SCALE = 4.5
FACETS = [Facet('matrix', mixtures(), check_dm, 240, 8000), Facet('evolved', evolved(), check_evolved, 120, 4000),
          Facet('cleanup', messy(), check_cleanup, 320, 10000)]
