"""Circuits with full time delays follow the statistics of photons with finite pulses."""
import math
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, pulses as T
from fock_state_circuit.temporal_and_spectral_gate_functionality.temporal_functions import set_pulse_width
from fsv.core import Facet

RULE = ('a case is a circuit of wave plates, phase shifts and time delays with one or two states and a final measurement; it is non-trivial when the '
        'delays change the probability of an outcome')
ASSUMPTIONS = ['fewer photons in total than the length of the Fock state (at most three photons)', 'one pulse width for all photons when they are measured']


@st.composite
def circuits(draw):
    N = draw(st.integers(2, 3))
    L = draw(st.sampled_from([2, 3, 3, 3, 4]))
    C = N + draw(st.integers(1, 2))
    w = draw(st.sampled_from([1.0, 2.0, 0.5, 3.0]))
    cvals = T.delays
    other = ['ps', 'psc', 'setc', 'cfun', 'spw', 'swap', 'meas', 'td', 'tdc']

    def gate(k):
        if k in ('td', 'tdc'):
            chs = draw(G.subset(N, 1, N - 1 if draw(st.integers(0, 4)) else N))
            return [k, chs, draw(T.delays) if k == 'td' else draw(st.integers(0, C - 1))]
        if k == 'spw':
            return [k, draw(st.sampled_from([None, list(range(N))]))]
        if k in ('wp', 'mix', 'ps', 'swap', 'mixg'):
            a, b = draw(G.pair(N))
            return {'wp': lambda: [k, a, b, draw(G.angle), draw(G.angle)], 'mix': lambda: [k, a, b], 'swap': lambda: [k, a, b],
                    'mixg': lambda: [k, a, b, draw(G.refl)], 'ps': lambda: [k, a, draw(G.angle)]}[k]()
        return draw(G.any_node(L, N, C, kinds=[k]))
    nodes = [['spw', None]] if draw(st.booleans()) else []
    for _ in range(draw(st.integers(1, 2)) if L < 4 else 1):
        for kinds, lo, hi in ((['wp', 'mix', 'wpc'], 0, 1), (other, 0, 1), (['td', 'tdc'], 1, 1), (other, 0, 1), (['wp', 'mix', 'mixg', 'mix', 'wpc'], 1, 2)):
            nodes += [gate(draw(st.sampled_from(kinds))) for _ in range(draw(st.integers(lo, hi)))]
    full = list(range(N)) if draw(st.booleans()) else draw(G.subset(N))
    nodes.append(['meas', full, draw(G.subset(C, len(full), len(full)))])
    how, marks = draw(st.integers(0, 3)), [k for k, n in enumerate(nodes) if n[0] in ('td', 'tdc', 'spw')]
    if how == 0:              # pulses and delays on another scale of time
        f = draw(st.sampled_from([0.01, 0.05, 30.0]))
        w *= f
        nodes = [[n[0], n[1], n[2] * f] if n[0] == 'td' else n for n in nodes]
        cvals = T.delays.map(lambda d: d * f)
    elif how == 1:            # a time delay sets the width of all photons (before pulses are mixed, what follows is not physical)
        other = draw(st.sampled_from([0.5, 1.0, 1.5, 4.0]))
        nodes = [draw(st.sampled_from([['td', draw(G.subset(N)), draw(T.delays), other], ['spw', draw(G.subset(N)), other], ['spw', None, other]])),
                 ['td', draw(G.subset(N)), draw(T.delays)]] + nodes
    elif how == 2:            # channel by channel, but the same width everywhere
        nodes = [['spw', draw(G.subset(N))] if n[0] == 'spw' and k > marks[0] else n for k, n in enumerate(nodes)]
    return dict(L=L, N=N, C=C, w=w, left=draw(st.sampled_from([True, True, False])), full=draw(st.booleans()), nodes=nodes, states=draw(T.states(L, N, C, cvals)),
                presplit=draw(st.sampled_from([False, False, False, True])))


def settle(case):
    """Pulse information exists only after the first delay; a delay that is zero is put in front of a measurement that comes before."""
    for n in case['nodes']:
        if n[0] in ('td', 'tdc', 'spw'):
            return case
        if n[0] == 'meas':
            break
    return dict(case, nodes=[['td', [0], 0.0]] + case['nodes'])


def outcome(s, cl):
    return (s, tuple(round(float(x), 4) + 0.0 for x in cl))


def histories(coll):
    """The set of (initial state, classical values, measured results) of the states of a collection."""
    return {outcome(x.initial_state, x.classical_channel_values) + (
        tuple(tuple(round(float(y), 4) + 0.0 for y in m['measurement_results']) for m in x.measurement_results),) for x in coll}


def compare(got, want, tol, what):
    keys = set(got) | set(want)
    bad = {k: (round(got.get(k, 0), 6), round(want.get(k, 0), 6)) for k in keys if abs(got.get(k, 0) - want.get(k, 0)) > tol}
    lib.need(not bad, '%s: probabilities (got, expected) %s' % (what, bad))


def check(case, ctx):
    """Measurement statistics after gates, full delays (static and controlled) and measurements against polynomials of creation operators in time."""
    case = settle(case)
    c = T.circuit(case)
    coll = lib.collection(c, case, case['states'])
    if case.get('presplit'):                 # the user took the components apart before the circuit
        cols = fsc.CollectionOfStateColumns(collection_of_states=coll.copy())
        cols.split()
        coll = cols.generate_collection_of_states()
        ctx.label('components apart')
    before = lib.snapshot(coll)
    out = c.evaluate_circuit(collection_of_states_input=coll)
    lib.need(lib.snapshot(coll) == before, 'the input collection changed')
    branches = T.expected(case)
    got, want = T.table(out, case), T.summary(branches, case)
    compare(got, want, 2e-4, 'outcomes after %s' % case['nodes'])
    hist = T.histories(out)
    for b in branches:
        h = T.history(b)
        lib.need(b.prob < 1e-4 or h in hist, 'no state with values and history %s' % (h,))
    for s in case['states']:
        lib.need(abs(sum(p for k, p in got.items() if k[0] == s['init']) - s.get('cum', 1.0)) < 1e-4, 'the probabilities of the outcomes do not add up')
    ctx.label(*sorted({n[0] for n in case['nodes']}))
    plain = T.summary(T.expected(dict(case, nodes=[x for x in case['nodes'] if x[0] not in ('td', 'tdc')])), case)
    if any(abs(plain.get(k, 0) - want.get(k, 0)) > 1e-3 for k in set(plain) | set(want)):
        ctx.label('delay visible')
        ctx.nt()


@st.composite
def widths(draw):
    N = draw(st.integers(2, 4))
    L = draw(st.integers(2, 4 if N < 4 else 3))
    C = draw(st.integers(0, 2))
    nodes = [[k] + list(draw(G.pair(N))) for k in draw(st.lists(st.sampled_from(['mix', 'swap']), max_size=2))]
    wid = st.sampled_from([0.25, 0.5, 1.0, 1.5, 2.0, 4.0])
    first = draw(st.none() | st.sampled_from(['td', 'spw']))
    if first:
        nodes.append(['td', draw(G.subset(N)), draw(T.delays), draw(wid)] if first == 'td' else ['spw', None, draw(wid)])
    for _ in range(draw(st.integers(1, 2))):
        chs = draw(st.lists(st.integers(0, N - 1), min_size=1, max_size=N))
        nodes.append(['spw', chs, draw(wid)])
    return dict(L=L, N=N, C=C, w=1.0, left=draw(st.booleans()), full=draw(st.booleans()), nodes=nodes, none=draw(st.sampled_from([None, None, None, None, 0.75])), states=draw(T.states(L, N, C, st.just(0))))


def check_widths(case, ctx):
    """Pulse widths set for some channels: photons in those channels get the width, all others keep the width they had (by default 1) and every photon keeps its delay."""
    L, N = case['L'], case['N']
    c = T.circuit(case)
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    out = c.evaluate_circuit(collection_of_states_input=coll)
    lib.need(lib.snapshot(coll) == before, 'the input collection changed')
    if case.get('none'):     # the function itself, without list of channels
        out = set_pulse_width(out, [None, case['none']])
        lib.need(all(x.auxiliary_information['photon_resolution']['photon_information']['pulse_width'] == case['none'] for x in out), 'the width is not set for all photons without list of channels')
        return
    nodes = [n for n in case['nodes'] if n[0] in ('td', 'spw')]
    single = any(n[0] == 'td' or (n[1] is not None and set(n[1]) != set(range(N))) for n in nodes)
    for x in out:
        info = x.auxiliary_information['photon_resolution']['photon_information']
        names = list(x.optical_components)
        chs = {ch for name in names for ch, n in enumerate(O.values_of(name, L, case['left'])) if n}
        if not single:
            lib.need(all(n[0] == 'spw' for n in nodes) and info['pulse_width'] == nodes[-1][2], 'width %s of all photons, expected %s' % (info['pulse_width'], nodes[-1][2]))
            continue
        lib.need(len(names) == 1 and sum(O.values_of(names[0], L, case['left'])) <= 1, 'the states are not single photons: %s' % names)
        if not chs:
            continue
        ch, w, d = chs.pop(), 1.0, 0.0
        for n in nodes:
            if n[0] == 'td':
                w, d = n[3], n[2] if ch in n[1] else 0.0
            elif n[1] is None or ch in n[1]:
                w = n[2]
        lib.need(abs(info['pulse_width'] - w) < 1e-9, 'a photon in channel %d has pulse width %s, expected %s' % (ch, info['pulse_width'], w))
        lib.need(abs(abs(info['time_delay']) - abs(d)) < 1e-9, 'a photon in channel %d is delayed by %s, expected %s' % (ch, info['time_delay'], d))
    ctx.label(nodes[0][0], 'single' if single else 'all')
    ctx.nt(single)


SCALE = 1.5
FACETS = [Facet('pulses', circuits(), check, 640, 12000), Facet('widths', widths(), check_widths, 200, 4000)]
