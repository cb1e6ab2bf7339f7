"""Pairs of photons with Popescu-Rohrlich correlations."""
import math
import numpy as np
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, pulses as T
from fsv.core import Facet
from fsv.props.P19 import compare

RULE = ('a case has one or two pairs of photons, each photon with its own channels and gates, with or without bystander photons; it is non-trivial when an outcome has '
        'a correlation strictly between -1 and 1 and not 0')
ASSUMPTIONS = ['photons of pairs do not meet other photons (documented limit)', 'every photon has two or three channels']


@st.composite
def pairs(draw, npairs=None, small=False, three=False):
    n = npairs or (3 if three and draw(st.integers(0, 250)) == 137 else draw(st.sampled_from([1, 1, 1, 2])))          # three pairs take about ten seconds
    extra = [draw(st.integers(0, 1)) if n == 1 else 0 for _ in range(2 * n)]
    by = 0 if small else draw(st.integers(0, 2)) if n == 1 else draw(st.sampled_from([0, 0, 1])) if n == 2 else 0
    N = 4 * n + sum(extra) + by
    order = list(draw(st.permutations(range(N))))
    photons = []
    for k in range(2 * n):
        photons.append([order.pop() for _ in range(2 + extra[k])])
    bystand = order
    L = draw(st.integers(2, 3)) if N <= 6 else 2
    C = N if draw(st.booleans()) else draw(st.integers(1, N))
    gates = []
    for modes in photons + ([bystand] if len(bystand) > 1 else []):
        for _ in range(draw(st.integers(0, 2 if n < 3 else 1))):
            p = draw(st.permutations(modes))
            a, b = p[:2]
            k = draw(st.sampled_from(['wp', 'wp', 'hwp', 'qwp', 'ps', 'mix', 'mixg', 'swap', 'wpc']))
            gates.append({'wp': lambda: [k, a, b, draw(G.angle), draw(G.angle)], 'hwp': lambda: [k, a, b, draw(G.angle)], 'qwp': lambda: [k, a, b, draw(G.angle)],
                          'mix': lambda: [k, a, b], 'swap': lambda: [k, a, b], 'mixg': lambda: [k, a, b, draw(G.refl)], 'ps': lambda: [k, a, draw(G.angle)],
                          'wpc': lambda: [k, a, b, draw(st.integers(0, C - 1)), draw(st.integers(0, C - 1))]}[k]())
    gates = list(draw(st.permutations(gates))) if draw(st.booleans()) else gates
    steep = n == 1 and draw(st.integers(0, 5)) == 0
    if steep:       # analysers almost halfway between parallel and orthogonal: a small correlation, which the root makes large
        gates = [g for g in gates if not set(g[1:3] if g[0] != 'ps' else g[1:2]) & set(photons[0] + photons[1])]
        gates.append(['hwp'] + photons[0][:2] + [math.pi / 8 * draw(st.sampled_from([-3, -1, 1, 3])) + draw(st.sampled_from([-3e-3, -1e-3, -3e-4, 3e-4, 1e-3, 3e-3]))])
        if draw(st.booleans()):
            gates.append(['hwp'] + photons[1][:2] + [math.pi / 4 * draw(st.integers(-3, 3))])
    meas = draw(G.subset(N, min(C, N), min(C, N)))
    states = []
    share = draw(st.integers(0, 3)) == 0           # a mixture: states with the same initial state
    for k in range(draw(st.sampled_from([1, 2, 2, 3]) if n == 1 else st.integers(1, 2) if n == 2 else st.just(1))):
        b = {}
        if bystand:
            for v, a in draw(G.comps(L, len(bystand), L - 1, True, 2)):
                b[tuple(v)] = a
        states.append(dict(init='s' if share else 's%d' % k, cum=draw(st.sampled_from([1.0, 0.5, 0.3])), hist=[[[draw(st.integers(0, 3)) for _ in range(C)], p] for p in draw(st.sampled_from([[], [], [0.5], [0.25, 1.0], [0.5, 0.5, 0.125]]))], cl=[draw(G.classical_value(L)) for _ in range(C)],
                           comps=[[[dict(zip(bystand, v)).get(c, 0) for c in range(N)], a] for v, a in b.items()] or [[[0] * N, [1.0, 0.0]]]))
    # a lower threshold for two pairs: the library insists that amplitudes of pairs factorise to 1e-6
    return dict(L=L, N=N, C=C, thr=1e-9 if n == 1 else 1e-14, left=draw(st.booleans()), full=n < 3 and draw(st.booleans()), photons=photons, by=bystand, gates=gates, q=[
        draw(st.sampled_from([2, 5])) if steep else draw(st.one_of(st.sampled_from([1, 2, 5, 1000]), st.integers(10, 60).map(lambda k: k / 10))) for _ in range(n)],
        meas=[meas, draw(G.subset(C, len(meas), len(meas)))], states=states)


def corr(alpha, beta, q):
    """Angle c between two analysers on the Poincare sphere (as cosine), correlation c^(1/q), and how much that changes by rounding of c."""
    na, nb = np.vdot(alpha, alpha).real, np.vdot(beta, beta).real
    if na * nb < 1e-14:
        return 0.0, 0.0, 0.0
    c = 2 * abs(alpha[0] * beta[0] + alpha[1] * beta[1]) ** 2 / (na * nb) - 1
    c = max(-1.0, min(1.0, c))
    f = [math.copysign(abs(x) ** (1 / q), x) for x in (c, max(-1, c - 2e-5), min(1, c + 2e-5))]
    return c, f[0], f[2] - f[1]


def matrix(case, modes, cl):
    """Unitary of the gates on the channels of one photon."""
    U = np.eye(case['N'], dtype=complex)
    for g in case['gates']:
        ch = [x for x in g[1:3]] if g[0] != 'ps' else [g[1]]
        if all(x in modes for x in ch):
            gs = [(g[1], g[2], O.plate(cl[g[3]], cl[g[4]]))] if g[0] == 'wpc' else O.mode_gates(g)
            U = O.gates_unitary(gs, case['N']) @ U
    return U


def expected(case):
    """{(index of the state, photon numbers): probability}"""
    out, mid, slack = {}, 0, {}
    for n, s in enumerate(case['states']):
        cl = s['cl']
        tables = []
        for k, q in enumerate(case['q']):
            A, B = case['photons'][2 * k], case['photons'][2 * k + 1]
            U = matrix(case, A, cl)
            V = matrix(case, B, cl)
            t = []
            for i in A:
                for j in B:
                    a, b = U[i, A[:2]], V[j, B[:2]]
                    c, f, e = corr(a, b, q)
                    w = np.vdot(a, a).real * np.vdot(b, b).real / 4
                    t.append(((i, j), w * (1 + f), w * e))
                    if 0.05 < abs(c) < 0.95 and t[-1][1] > 1e-3 and q != 1:
                        mid += 1
            tables.append(t)
        rest = lib.comps_of(s)
        for g in case['gates']:
            ch = [x for x in g[1:3]] if g[0] != 'ps' else [g[1]]
            if case['by'] and all(x in case['by'] for x in ch):
                gs = [(g[1], g[2], O.plate(cl[g[3]], cl[g[4]]))] if g[0] == 'wpc' else O.mode_gates(g)
                rest = O.apply_gates(rest, gs, case['L'])
        t = [(v, abs(a) ** 2 * s['cum'], 0.0) for v, a in rest.items()]
        for tab in tables:
            t = [(tuple(x + (c in ij) for c, x in enumerate(v)), p * r, d + e) for v, p, d in t for ij, r, e in tab]
        for v, p, d in t:
            out[(n, v)] = out.get((n, v), 0) + p
            slack[(n, v)] = d
    return out, mid, slack


def build(case, gates=None):
    c = lib.circuit(case, [])
    spec = [dict(channels_Ah_Av_Bh_Bv=case['photons'][2 * k][:2] + case['photons'][2 * k + 1][:2], quantumness_indicator=q) for k, q in enumerate(case['q'])]
    c.popescu_rohrlich_correlation_gate(pr_correlation=spec)
    for g in case['gates'] if gates is None else gates:
        lib.add(c, g, case)
    c.measure_optical_to_classical(list(case['meas'][0]), list(case['meas'][1]))
    return c


def check(case, ctx):
    """Outcome probabilities, collapsed states and classical values against the correlation law for every pair."""
    c = build(case)
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    got = lib.read(c.evaluate_circuit(collection_of_states_input=coll), case)
    lib.need(lib.snapshot(coll) == before, 'the input collection changed')
    table, mid, loose = expected(case)

    def key(init, v, cl, hist):
        return (init, v, T.rnd(cl), tuple(T.rnd(h) for h in hist))
    want, slack, ways = {}, {}, {}
    for (n, v), p in table.items():
        s = case['states'][n]
        cl = [float(x) for x in s['cl']]
        for o, k in zip(*case['meas']):
            cl[k] = float(v[o])
        k = key(s['init'], v, cl, [h[0] for h in s['hist']] + [cl])
        want[k], slack[k], ways[k] = want.get(k, 0) + p, slack.get(k, 0) + loose[(n, v)], ways.get(k, 0) + 1
    have, count = {}, {}
    for r in got:
        lib.need(len(r.comps) == 1 and abs(abs(next(iter(r.comps.values()))) - 1) < 1e-5, 'the state is not collapsed: %s' % lib.show(r.comps))
        k = key(r.init, next(iter(r.comps)), r.cl, [h[0] for h in r.hist])
        lib.need(k in want or r.cum < 1e-3, 'no state is expected with initial state, photons, classical values and history %s' % (k,))
        have[k], count[k] = have.get(k, 0) + r.cum, count.get(k, 0) + 1
        lib.need(count[k] <= ways.get(k, 1), 'outcome %s is there twice' % (k,))
    bad = {k: (have.get(k, 0), want.get(k, 0)) for k in set(have) | set(want) if abs(have.get(k, 0) - want.get(k, 0)) > 5e-4 * ways.get(k, 1) + slack.get(k, 0)}
    lib.need(not bad, 'probabilities (got, expected): %s' % bad)
    lib.need(abs(sum(have.values()) - sum(s['cum'] for s in case['states'])) < 1e-3 * len(case['states']) + sum(slack.values()), 'the probabilities do not add up')
    ctx.label('pairs%d' % len(case['q']), 'bystanders%d' % len(case['by']))
    ctx.nt(mid > 0)


def table(coll, case):
    out = {}
    for r in lib.read(coll, case):
        for v, a in r.comps.items():
            k = (r.init, v)
            out[k] = out.get(k, 0) + r.cum * abs(a) ** 2
    return out


def check_ordinary(case, ctx):
    """With quantumness 1 the pairs behave like regular entangled photons, (1010 + 0101)/sqrt 2, in the same circuit."""
    case['q'] = [1] * len(case['q'])
    c = build(case)
    got = table(c.evaluate_circuit(collection_of_states_input=lib.collection(c, case, case['states'])), case)
    states = []
    for s in case['states']:
        comps = [(v, complex(*a)) for v, a in s['comps']]
        for k in range(len(case['q'])):
            A, B = case['photons'][2 * k], case['photons'][2 * k + 1]
            comps = [([x + (c in (A[p], B[p])) for c, x in enumerate(v)], a / math.sqrt(2)) for v, a in comps for p in (0, 1)]
        states.append(dict(s, comps=[[v, [a.real, a.imag]] for v, a in comps]))
    d = lib.circuit(case, case['gates'])
    want = table(d.evaluate_circuit(collection_of_states_input=lib.collection(d, case, states)), case)
    compare(got, want, 1e-3, 'pairs with quantumness 1')
    ctx.label('pairs%d' % len(case['q']))
    ctx.nt(sum(0.02 < p < 0.23 * next(s['cum'] for s in states if s['init'] == k[0]) for k, p in want.items()) > 1)


def check_nosignal(case, ctx):
    """The outcomes of one photon do not depend on what is done to the polarization of the other photons."""
    # a third channel that takes in one polarization only makes the analyser of the law non-unitary, there the power law itself signals
    loose = {x for k, m in enumerate(case['photons']) if case['q'][k // 2] != 1 for x in m[2:]}
    case['gates'] = [g for g in case['gates'] if not loose & set(g[1:3] if g[0] != 'ps' else g[1:2])]
    who = case['photons'][case['who'] % len(case['photons'])]
    gates = [g for g in case['gates'] if all(x in who for x in (g[1:3] if g[0] != 'ps' else g[1:2]))]
    res = []
    for gs in (case['gates'], gates):
        c = build(case, gs)
        t = {}
        for (init, v), p in table(c.evaluate_circuit(collection_of_states_input=lib.collection(c, case, case['states'])), case).items():
            k = (init, tuple(v[x] for x in who))
            t[k] = t.get(k, 0) + p
        res.append(t)
    tol = 1e-3 + max(sum(expected(dict(case, gates=g))[2].values()) for g in (gates, case['gates']))
    compare(res[0], res[1], tol, 'outcomes of the photon in channels %s with other gates elsewhere' % who)
    ctx.nt(len(gates) < len(case['gates']) and tol < 0.01 and any(0.02 < p < 0.48 for p in res[1].values()))


@st.composite
def chosen(draw):
    case = draw(pairs())
    case['who'] = draw(st.integers(0, 3))
    return case


FACETS = [Facet('law', pairs(three=True), check, 400, 8000), Facet('ordinary', pairs(), check_ordinary, 240, 5000), Facet('nosignal', chosen(), check_nosignal, 240, 5000)]
