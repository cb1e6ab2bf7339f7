"""The functions for no-signalling boxes and CHSH experiments agree with the correlation law."""
import math
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet
from fsv.props import P22
from fsv.props.P19 import compare

RULE = ('a case is a circuit with one or two correlated pairs of photons, or a CHSH experiment with four analyser settings; it is non-trivial when a correlation is '
        'strictly between -1 and 1 and not 0')
ASSUMPTIONS = P22.ASSUMPTIONS


@st.composite
def boxes(draw):
    case = draw(P22.pairs())
    case['states'] = case['states'][:1]
    N = case['N']
    case['combis'] = draw(st.lists(G.pair(N), min_size=1, max_size=4))
    return case


def spec(case):
    return [dict(channels_Ah_Av_Bh_Bv=case['photons'][2 * k][:2] + case['photons'][2 * k + 1][:2], quantumness_indicator=q) for k, q in enumerate(case['q'])]


def check_legacy(case, ctx):
    """create, measure and correlate with the legacy functions; the node create_no_signalling_boxes gives the same as the current node."""
    c = lib.circuit(case, case['gates'])
    home = lib.collection(c, case, case['states'])
    tpl = next(iter(home))
    before = lib.snapshot(home)
    coll = fsc.create_collection_with_NS_boxes(tpl, spec(case))
    lib.need(lib.snapshot(home) == before, 'the template changed')
    out = c.evaluate_circuit(collection_of_states_input=coll) if case['gates'] else coll
    histo = fsc.measure_collection_with_NS_boxes(out)
    init = 0
    want, mid, slack = P22.expected(case)
    got = {}
    for e in histo:
        v = O.values_of(e['output_state'], case['L'], case['left'])
        lib.need((init, v) not in got, 'outcome %s is listed twice' % (v,))
        got[(init, v)] = float(e['probability'])
    bad = {k: (got.get(k, 0), want.get(k, 0)) for k in set(got) | set(want) if abs(got.get(k, 0) - want.get(k, 0)) > 5e-4 + slack.get(k, 0)}
    lib.need(not bad, 'measure_collection_with_NS_boxes: probabilities (got, expected): %s' % bad)
    corr = fsc.correlations_from_measured_collection_with_NS_boxes(histo, [tuple(x) for x in case['combis']], tpl)
    tot = sum(got.values())
    for (a, b), x in zip(case['combis'], corr):
        w = sum(p if v[a] == v[b] else -p for (i, v), p in got.items()) / tot
        lib.need(abs(x - w) < 1e-6, 'correlation of channels %d and %d is %.6f, expected %.6f' % (a, b, x, w))
    lib.need(len(corr) == len(case['combis']), 'one correlation per pair of channels')
    # the node
    d = lib.circuit(case, [])
    d.create_no_signalling_boxes(spec(case))
    for g in case['gates']:
        lib.add(d, g, case)
    d.measure_optical_to_classical(*[list(x) for x in case['meas']])
    old = P22.table(d.evaluate_circuit(collection_of_states_input=lib.collection(d, case, case['states'])), case)
    e = P22.build(case)
    new = P22.table(e.evaluate_circuit(collection_of_states_input=lib.collection(e, case, case['states'])), case)
    compare(old, new, 1e-6, 'create_no_signalling_boxes and popescu_rohrlich_correlation_gate')
    ctx.label('pairs%d' % len(case['q']))
    ctx.nt(mid > 0 or any(0.01 < p < 0.24 for p in want.values()))


@st.composite
def chsh(draw):
    order = list(draw(st.permutations(range(4))))
    npair = draw(st.sampled_from([1, 1, 2]))
    ang = st.integers(-90, 90).map(lambda k: k * math.pi / 90)
    four = [draw(ang) for _ in range(4)]
    if draw(st.booleans()):     # settings of maximal violation
        t = draw(ang)
        four = [t, t + math.pi / 8, t + math.pi / 16, t - math.pi / 16]
    return dict(ch=order, npair=npair, set=four, left=draw(st.booleans()), L=draw(st.integers(2, 3)),
                q=[draw(st.one_of(st.sampled_from([1, 1, 2, 5, 1000]), st.integers(10, 50).map(lambda k: k / 10))) for _ in range(npair)],
                legacy=draw(st.booleans()))


def check_chsh(case, ctx):
    """Correlations at four pairs of analyser angles: cos 4(a-b) to the power 1/q with sign; S is at most 2 sqrt 2 for q = 1 and at most 4 in general."""
    n = case['npair']
    N = 4 * n
    E = []
    for x in (0, 1):
        for y in (2, 3):
            c = fsc.FockStateCircuit(length_of_fock_state=case['L'] if n == 1 else 2, no_of_optical_channels=N, no_of_classical_channels=N,
                                     channel_0_left_in_state_name=case['left'], threshold_probability_for_setting_to_zero=1e-14)
            sp = [dict(channels_Ah_Av_Bh_Bv=[4 * k + j for j in case['ch']], quantumness_indicator=q) for k, q in enumerate(case['q'])]
            (c.create_no_signalling_boxes if case['legacy'] else c.popescu_rohrlich_correlation_gate)(sp)
            for s in sp:
                ah, av, bh, bv = s['channels_Ah_Av_Bh_Bv']
                c.half_wave_plate(ah, av, angle=case['set'][x])
                c.half_wave_plate(bh, bv, angle=case['set'][y])
            c.measure_optical_to_classical(list(range(N)), list(range(N)))
            coll = fsc.CollectionOfStates(fock_state_circuit=c, input_collection_as_a_dict=dict([]))
            coll.add_state(fsc.State(collection_of_states=coll))
            out = c.evaluate_circuit(collection_of_states_input=coll)
            combis = [(s['channels_Ah_Av_Bh_Bv'][0], s['channels_Ah_Av_Bh_Bv'][2]) for s in sp]
            res = out.plot_correlations(channel_combis_for_correlation=combis, correlation_output_instead_of_plot=True)
            lib.need(len(res) == 1, 'one initial state expected, got %s' % list(res))
            E.append(next(iter(res.values())))
    for k, q in enumerate(case['q']):
        e = []
        for i, (x, y) in enumerate([(0, 2), (0, 3), (1, 2), (1, 3)]):
            co = math.cos(4 * (case['set'][x] - case['set'][y]))
            f = [math.copysign(abs(z) ** (1 / q), z) for z in (max(-1, co - 2e-5), co, min(1, co + 2e-5))]
            lib.need(f[0] - 2e-3 <= E[i][k] <= f[2] + 2e-3, 'correlation %.5f, expected %.5f (q = %s)' % (E[i][k], f[1], q))
            e.append(E[i][k])
            if 0.05 < abs(co) < 0.95:
                ctx.nt()
        for S in (e[0] + e[1] + e[2] - e[3], e[0] - e[1] + e[2] + e[3], e[0] + e[1] - e[2] + e[3], -e[0] + e[1] + e[2] + e[3]):
            lib.need(abs(S) <= (2 * math.sqrt(2) if q == 1 else 4) + 5e-3, 'S = %.4f for q = %s' % (S, q))
            if abs(S) > 2.05:
                ctx.label('beyond classical' if abs(S) < 2.84 else 'beyond quantum')
    ctx.label('q=1' if 1 in case['q'] else 'q>1')


SCALE = 1.5
FACETS = [Facet('legacy', boxes(), check_legacy, 160, 4000), Facet('chsh', chsh(), check_chsh, 120, 3000)]
