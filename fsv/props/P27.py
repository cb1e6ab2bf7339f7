"""Rounding to zero removes exactly the components below the threshold, never more."""
import math
import numpy as np
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a circuit with a threshold and a state with large and small components; it is non-trivial when the exact result has a component '
        'on both sides of the threshold, for measurements when a rare outcome is possible')
thresholds = st.sampled_from(['default', 'default', 1e-2, 1e-3, 0.05, 1e-6, 0.0])


def level(case):
    return 1e-4 if case['thr'] == 'default' else case['thr']


@st.composite
def uneven(draw, L, N, C, total=None):
    """A normalised state in which the sizes of the components range over orders of magnitude."""
    out = {}
    for _ in range(draw(st.integers(1, 5))):
        v = tuple(draw(G.values(L, N, total)))
        p = draw(st.sampled_from([1.0, 1.0, 0.3, 0.04, 0.008, 2e-3, 5e-4, 8e-5, 2e-5, 3e-7]))
        f = draw(st.sampled_from([0.0, 0.5, math.pi / 2, math.pi, -1.0]))
        out[v] = math.sqrt(p) * complex(math.cos(f), math.sin(f))
    n = math.sqrt(O.norm2(out))
    s = dict(init='s', comps=[[list(v), [a.real / n, a.imag / n]] for v, a in out.items()], cum=draw(st.sampled_from([1.0, 0.5, 1e-3])))
    if C:
        s['cl'] = [draw(G.angle) for _ in range(C)]
    return s


@st.composite
def single(draw):
    L, N = draw(G.dims(260, Lmax=6, Nmax=4))
    C = 2
    node = draw(st.one_of(G.optical_node(N), G.optical_node(N), G.any_node(L, N, C, kinds=['wpc', 'psc', 'shift', 'cs', 'fperm', 'shiftd', 'csd'])))
    if node[0] in ('npbs', 'npbs50'):
        node = ['mixg', node[1][0], node[2][0], 0.001]
    small = draw(st.sampled_from([None, 0.01, 0.03, 0.1, 0.2]))     # weak mixing gives small components
    if node[0] in ('wp', 'mixg') and small is not None:
        node = ['wp', node[1], node[2], small, math.pi] if node[0] == 'wp' else ['mixg', node[1], node[2], 1 - small ** 2]
    return dict(L=L, N=N, C=C, **draw(G.flags), thr=draw(thresholds), nodes=[node], states=[draw(uneven(L, N, C)) for _ in range(draw(st.integers(1, 2)))])


def check_single(case, ctx):
    """After one node the components at or above the threshold keep their amplitude, the ones below are gone, nothing is renormalised."""
    t = level(case)
    direct = case['nodes'][0][0] in ('shiftd', 'csd')     # act on names, round nothing
    got = lib.read(prog.run(case)[1], case)
    want = prog.expected(case)
    lib.need(len(got) == len(want), 'number of states')
    for g, w in zip(got, want):
        lib.need(g.init == w.init and abs(g.cum - w.cum) < 1e-12, 'probability or label of a state changed')
        for v in set(g.comps) | set(w.comps):
            a, b = g.comps.get(v, 0), w.comps.get(v, 0)
            p = abs(b) ** 2
            if direct or p > t * 1.002 + 1e-7:
                lib.need(abs(a - b) < 2e-5 or abs(a - b) < 3e-4 * abs(b) or (direct and abs(a - b) < 1e-12),
                         'component %s has amplitude %s, expected %s (probability %.3g, threshold %g)' % (v, a, b, p, t))
            elif p < t * 0.998 - 1e-7 and not direct:
                lib.need(v not in g.comps, 'component %s with probability %.3g is kept with threshold %g' % (v, p, t))
        sizes = [abs(b) ** 2 for b in w.comps.values() if abs(b) ** 2 > 1e-8]
        ctx.nt(t > 0 and not direct and any(p < t for p in sizes) and any(p >= t for p in sizes))
    ctx.label(str(case['thr']), case['nodes'][0][0])


@st.composite
def measured(draw):
    L, N = draw(G.dims(260, Lmax=6, Nmax=4))
    C = draw(st.integers(1, 3))
    return dict(L=L, N=N, C=C, **draw(G.flags), thr=draw(thresholds), nodes=[draw(G.any_node(L, N, C, kinds=['meas']))],
                states=[draw(uneven(L, N, C)) for _ in range(draw(st.integers(1, 2)))])


def check_measured(case, ctx):
    """A measurement keeps rare outcomes and small components: probabilities of the outcomes sum to that of the input for any threshold."""
    got = lib.read(prog.run(case)[1], case)
    want = prog.expected(case)
    total = sum(s['cum'] for s in case['states'])
    lib.need(abs(sum(g.cum for g in got) - total) < 1e-9, 'probabilities sum to %.9f, expected %.9f' % (sum(g.cum for g in got), total))
    lib.compare(got, want, tol=1e-9, ptol=1e-12, pmin=0, what='measurement with threshold %s' % case['thr'])
    t = level(case)
    ctx.label(str(case['thr']))
    ctx.nt(any(w.cum < t for w in want) and len(want) > 1)


@st.composite
def programs(draw):
    L, N = draw(G.dims(100, Lmax=5, Nmax=4))
    C = 2
    node = st.one_of(G.optical_node(N), G.optical_node(N), G.any_node(L, N, C, kinds=['wpc', 'psc', 'setc', 'shift', 'csd']))
    return dict(L=L, N=N, C=C, **draw(G.flags), thr=draw(st.sampled_from(['default', 'default', 1e-3, 1e-6])),
                nodes=draw(st.lists(node, min_size=2, max_size=6)), states=[draw(uneven(L, N, C))])


def check_program(case, ctx):
    """The error rounding leads to stays within a bound that follows from the threshold at every step."""
    t = level(case)
    got = lib.read_one(prog.run(case)[1], case)
    states = [lib.model(s, case['C']) for s in case['states']]
    err = 0.0
    for node in case['nodes']:
        gates = O.mode_gates(node)
        for g in gates or [None]:       # beam splitters on channel pairs consist of two nodes, the state may be rounded in between
            if g is None:
                states = O.step(states, node, case['L'], case['N'])
            else:
                states[0].comps = O.apply_gates(states[0].comps, [g], case['L'])
            lost = sum(min(math.sqrt(t), abs(a) + err) ** 2 for a in states[0].comps.values() if abs(a) > 1e-9 and abs(a) < math.sqrt(t) + err)
            err += math.sqrt(lost) + 2e-4
    d = math.sqrt(O.norm2({v: got.comps.get(v, 0) - states[0].comps.get(v, 0) for v in set(got.comps) | set(states[0].comps)}))
    lib.need(d <= err + 1e-3, 'distance to the exact state %.4g, rounding with threshold %g explains %.4g\n got %s\n exact %s' % (
        d, t, err, lib.show(got.comps), lib.show(states[0].comps)))
    lib.need(got.cl == [float(x) for x in states[0].cl], 'classical values')
    lib.need(O.norm2(got.comps) <= 1 + 2e-3, 'norm %.5f' % O.norm2(got.comps))
    ctx.label(str(case['thr']), 'bound%d' % math.floor(math.log10(err + 1e-9)))
    ctx.nt(err < 0.2 and O.distance(got.comps, lib.comps_of(case['states'][0])) > 0.05)


SCALE = 3
FACETS = [Facet('single', single(), check_single, 960, 20000), Facet('measured', measured(), check_measured, 480, 10000),
          Facet('program', programs(), check_program, 640, 15000)]
