"""Amplitudes of pairs of photons are taken apart in pairs and photons, when that is possible."""
import cmath
import itertools
import math
import numpy as np
import fock_state_circuit as fsc
from fock_state_circuit.popescu_rohrlich_correlation_functionality.popescu_rohrlich_photon_pair_amplitude_functionality import PopescuRohrlichPhotonPairAmplitudes
from hypothesis import strategies as st
from fsv import gens as G, lib
from fsv.core import Facet

RULE = ('a case is a table of amplitudes of one to four pairs of photons; it is non-trivial when at least two photons have two amplitudes that are not zero')
part = st.one_of(st.sampled_from([0, 0, 1, -1, 2, 3]), st.integers(-50, 50).map(lambda k: k / 10))


@st.composite
def photon(draw):
    """Two amplitudes; not normalised."""
    h, v = [[draw(part), draw(part)] for _ in range(2)]
    if abs(complex(*h)) < 0.05 and abs(complex(*v)) < 0.05:
        h = [1, 0]
    if draw(st.integers(0, 9)) == 0:        # one amplitude much smaller than the other
        v = [x / 50 for x in v]
    return [h, v]


@st.composite
def table(draw):
    n = draw(st.sampled_from([1, 1, 2, 2, 2, 3, 3, 4]))
    pairs = [[draw(photon()), draw(photon())] for _ in range(n)]
    kind = draw(st.sampled_from(['product', 'product', 'pair', 'pairs']))
    other = [draw(photon()), draw(photon())] if kind == 'pair' else [[draw(photon()), draw(photon())] for _ in range(n)] if kind == 'pairs' else None
    return dict(pairs=pairs, kind=kind if n > 1 or kind != 'pairs' else 'product', other=other, which=draw(st.integers(0, n - 1)),
                drop=draw(st.booleans()), order=draw(st.integers(0, 1000)), scale=draw(st.sampled_from([1, 1, 0.1, 3])), phase=draw(G.angle), threshold=draw(st.sampled_from([1.0, 1.0, 1e4, 5e5])))


def vec(photons):
    a, b = [[complex(*x) for x in p] for p in photons]
    return np.array([a[0] * b[0], a[0] * b[1], a[1] * b[0], a[1] * b[1]])


def same_ray(x, y, tol, what):
    x, y = np.array(x, dtype=complex).ravel(), np.array(y, dtype=complex).ravel()
    lib.need(x.shape == y.shape, '%s has %s elements instead of %s' % (what, x.shape, y.shape))
    o = abs(np.vdot(x, y)) / (np.linalg.norm(x) * np.linalg.norm(y))
    lib.need(o > 1 - tol, '%s is %s instead of %s (up to a factor)' % (what, x.tolist(), y.tolist()))


def stokes(h, v):
    """Stokes vector with the conventions of the class: z horizontal, y diagonal, x circular."""
    n = abs(h) ** 2 + abs(v) ** 2
    c = 2 * h * v.conjugate() / n
    return [c.imag, c.real, (abs(h) ** 2 - abs(v) ** 2) / n]


def check(case, ctx):
    """Products are recovered in full; entanglement within or between pairs is reported."""
    n = len(case['pairs'])
    vs = [vec(p) for p in case['pairs']]
    vs = [v / np.linalg.norm(v) for v in vs]
    kind, split = case['kind'], 0.0
    if kind == 'pair':
        w = vec(case['other'])
        k = case['which']
        vs[k] = vs[k] + w / np.linalg.norm(w)
        if np.linalg.norm(vs[k]) < 0.3:
            return
        vs[k] = vs[k] / np.linalg.norm(vs[k])
        split = np.linalg.svd(vs[k].reshape(2, 2), compute_uv=False)[1]
    T = vs[0]
    for v in vs[1:]:
        T = np.multiply.outer(T, v)
    if kind == 'pairs':
        W = None
        for p in case['other']:
            v = vec(p)
            v = v / np.linalg.norm(v)
            W = v if W is None else np.multiply.outer(W, v)
        T = T + W
        if np.linalg.norm(T) < 0.3:
            return
        split = max(np.linalg.svd(np.moveaxis(T, k, 0).reshape(4, -1), compute_uv=False)[1] for k in range(n)) / np.linalg.norm(T)
    T = T / np.linalg.norm(T) * case['scale'] * cmath.exp(1j * case['phase'])
    d = {''.join(map(str, ix)): complex(T[ix]) for ix in itertools.product(range(4), repeat=n)}
    if case['drop']:
        d = {k: a for k, a in d.items() if a != 0} or d
    keys = sorted(d)
    import random
    random.Random(case['order']).shuffle(keys)
    d = {k: d[k] for k in keys}
    before = dict(d)
    thing = PopescuRohrlichPhotonPairAmplitudes(input_dictionary=d)
    lib.need(d == before, 'the dictionary changed')
    M = np.array(thing.resulting_matrix)
    lib.need(M.shape == (4,) * n and np.allclose(M, T, atol=1e-6 * case['scale']), 'matrix is %s for %s' % (M.tolist(), d))
    lib.need(abs(thing.overall_probability - case['scale'] ** 2) < 1e-5, 'overall probability %s' % thing.overall_probability)
    lib.need(len(thing.reproduced_vectors) == n and len(thing.photon_amplitudes) == len(thing.stokes_vectors) == 2 * n, 'number of vectors')
    lib.need([tuple(p) for p in thing.photon_indices_per_pair] == [(2 * k, 2 * k + 1) for k in range(n)], 'photons per pair')
    # a pair has always amplitudes of 0.3 or more next to each other, so a split below 1e-9 is rounding and one over 1e-3 is entanglement
    ctx.label(kind, 'pairs%d' % n)
    if kind == 'pairs' and split > 1e-9:
        if split > 1e-3:
            lib.need(not thing.is_dict_factorable(), 'entanglement between pairs is not reported')
            ctx.nt()
        return
    lib.need(thing.is_dict_factorable(), 'a product of pairs is not recognised')
    back = thing.dict_from_reproduced_vectors()
    lib.need(set(back) == {''.join(map(str, ix)) for ix in itertools.product(range(4), repeat=n)}, 'labels of the dictionary')
    same_ray([back[k] for k in sorted(back)], [T[tuple(map(int, k))] for k in sorted(back)], 1e-5, 'the dictionary of the product')
    if kind == 'pairs':
        return
    for k in range(n):
        same_ray(thing.reproduced_vectors[k], vs[k], 1e-5, 'pair %d' % k)
    if kind == 'pair' and split > 1e-9:
        if split > 1e-3:
            lib.need(not thing.are_all_photon_pairs_factorable(), 'entanglement within pair %d is not reported' % case['which'])
            flags = [thing.is_photon_pair_factorable(v) for v in thing.reproduced_vectors]
            lib.need(flags == [k != case['which'] for k in range(n)], 'pairs that are factorable: %s' % flags)
            lib.need(thing.are_all_photon_pairs_factorable(threshold=3e6) and thing.is_photon_pair_factorable(thing.reproduced_vectors[case['which']], threshold=3e6),
                     'two normalised vectors differ never more than 2, so with threshold 3e6 every pair is factorable')
            ctx.nt()
    else:
        lib.need(thing.are_all_photon_pairs_factorable(), 'a product of photons is not recognised')
        lib.need(not thing.are_all_photon_pairs_factorable(threshold=0.0) or n == 0, 'nothing is below threshold zero')
        lib.need(thing.are_all_photon_pairs_factorable(case['threshold']) and thing.is_dict_factorable(case['threshold']), 'a product is not recognised at a higher threshold')
    two = 0
    for k in range(n):
        if kind == 'pair' and k == case['which']:
            continue
        for j in range(2):
            h, v = [complex(*x) for x in case['pairs'][k][j]]
            got = thing.photon_amplitudes[2 * k + j]
            same_ray(got, [h, v], 1e-5, 'photon %d of pair %d' % (j, k))
            lib.need(abs(np.linalg.norm(got) - 1) < 1e-4, 'photon %d of pair %d is not normalised' % (j, k))
            s, length = thing.stokes_vectors[2 * k + j]
            lib.need(np.allclose(s, stokes(h, v), atol=2e-3) and abs(length - 1) < 1e-4, 'Stokes vector of photon %d of pair %d is %s instead of %s' % (j, k, s, stokes(h, v)))
            two += abs(h) > 1e-3 and abs(v) > 1e-3
        both = thing.reproduced_vector_from_photon_amplitudes([thing.photon_amplitudes[2 * k], thing.photon_amplitudes[2 * k + 1]])
        same_ray(both, vs[k], 1e-5, 'pair %d made of its photons' % k)
    ctx.nt(two >= 2)


@st.composite
def vectors(draw):
    p = [draw(photon()) for _ in range(2)]
    return dict(photons=p, q=draw(st.one_of(st.sampled_from([1, 1, 2, 3, 10, 1000]), st.integers(10, 80).map(lambda k: k / 10))), lengths=[draw(st.sampled_from([1, 1, 0.5, 3])) for _ in range(2)],
                matrix=[[draw(part), draw(part)] for _ in range(8)], shape=draw(st.sampled_from([[8], [2, 4], [2, 2, 2]])), shift=[[draw(part), draw(part)] for _ in range(8)],
                size=draw(st.sampled_from([1e-5, 1e-3, 0.1, 1])), factor=[draw(st.sampled_from([1, 0.2, 4])), draw(G.angle)])


def check_vectors(case, ctx):
    """Stokes vectors of single photons, the correlation of two of them, and the distance between tables of amplitudes."""
    t = PopescuRohrlichPhotonPairAmplitudes({})
    ss = []
    for p in case['photons']:
        h, v = [complex(*x) for x in p]
        s, n = t.stokes_vector_from_amplitudes([np.cdouble(h), np.cdouble(v)])
        lib.need(abs(n - math.sqrt(abs(h) ** 2 + abs(v) ** 2)) < 1e-6 * (1 + n), 'length %s of %s' % (n, p))
        lib.need(np.allclose(s, stokes(h, v), atol=1e-6), 'Stokes vector of %s is %s instead of %s' % (p, s, stokes(h, v)))
        # the length and the phase of the pair of amplitudes do not matter for the direction
        for k in (1e-3, 1e-7, 1e-10, 1e5):
            f = k * cmath.exp(1j * case['factor'][1])
            s2, n2 = t.stokes_vector_from_amplitudes([np.cdouble(f * h), np.cdouble(f * v)])
            lib.need(np.allclose(s2, s, atol=1e-6) and abs(n2 / k - n) < 1e-6 * (1 + n), 'Stokes vector of %s times %s is (%s, %s) instead of (%s, %s)' % (p, f, s2, n2, s, n * k))
        ss.append(stokes(h, v))
    c = float(np.dot(*ss))
    a, b = [[x * l for x in s] for s, l in zip(ss, case['lengths'])]
    correlation = getattr(fsc, '_probability_from_stokes_vectors', None)      # not public: P22 checks the law where it is used
    if abs(c) > 1e-9 and correlation is not None:
        got = correlation(a, b, case['q'])
        want = (1 + math.copysign(min(1, abs(c)) ** (1 / case['q']), c)) / 2
        lib.need(abs(got - want) < 1e-6, 'correlation of %s and %s is %s instead of %s' % (a, b, got, want))
        lib.need(abs(correlation(b, a, case['q']) - got) < 1e-9, 'the correlation depends on the order of the photons')
    A = np.array([complex(*x) for x in case['matrix']])
    if np.linalg.norm(A) < 0.1:
        A = np.arange(1, 9) + 0j
    f = case['factor'][0] * cmath.exp(1j * case['factor'][1])
    A = A.reshape(case['shape'])
    lib.need(t.compare_matrices_ppm_level(A, f * A) < 1e-3, 'a table differs from itself times a factor')
    B = A + case['size'] * np.array([complex(*x) for x in case['shift']]).reshape(case['shape'])
    if np.linalg.norm(B) < 0.1:
        return
    mags = sorted(np.abs(A).ravel())
    ix = np.unravel_index(np.argmax(np.abs(A)), A.shape)
    if mags[-1] - mags[-2] < 1e-6 or abs(B[ix]) < 1e-6:
        return
    x, y = A / np.linalg.norm(A), B / np.linalg.norm(B)
    want = 1e6 * np.linalg.norm(x * abs(x[ix]) / x[ix] - y * abs(y[ix]) / y[ix])
    got = t.compare_matrices_ppm_level(A, f * B)
    lib.need(abs(got - want) < 1e-4 * want + 1e-3, 'difference of %s and %s is %s instead of %s' % (A.tolist(), B.tolist(), got, want))
    ctx.nt(want > 1 and abs(c) < 1 - 1e-6)


SCALE = 5
FACETS = [Facet('table', table(), check, 600, 15000), Facet('vectors', vectors(), check_vectors, 300, 6000)]
