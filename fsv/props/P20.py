"""Quick time delays: a mixture of pulses that overlap fully and pulses that do not overlap."""
import math
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, pulses as T
from fsv.core import Facet
from fsv.props.P19 import compare

RULE = ('a case is a circuit with a single quick time delay and a final measurement, or a balanced interferometer with a delay; it is non-trivial when the delay changes the '
        'probability of an outcome')
ASSUMPTIONS = ['fewer photons in total than the length of the Fock state (at most four photons)', 'one delay per circuit']


@st.composite
def circuits(draw):
    N = draw(st.integers(2, 4))
    L = draw(st.integers(2, 4 if N < 4 else 3))
    C = N + draw(st.integers(0, 2))
    w = draw(st.sampled_from([1.0, 2.0, 0.5, 4.0]))

    def gate(k):
        if k in ('wp', 'mix', 'ps', 'swap', 'mixg'):
            a, b = draw(G.pair(N))
            return {'wp': lambda: [k, a, b, draw(G.angle), draw(G.angle)], 'mix': lambda: [k, a, b], 'swap': lambda: [k, a, b],
                    'mixg': lambda: [k, a, b, draw(G.refl)], 'ps': lambda: [k, a, draw(G.angle)]}[k]()
        return draw(G.any_node(L, N, C, kinds=[k]))
    nodes = [gate(draw(st.sampled_from(['wp', 'mix', 'wpc', 'setc', 'ps', 'cfun', 'meas']))) for _ in range(draw(st.integers(0, 2)))]
    chs = draw(G.subset(N, 1, N - 1 if draw(st.integers(0, 4)) else N))
    nodes.append(['qd', chs, draw(T.delays)] if draw(st.booleans()) else ['qdc', chs, draw(st.integers(0, C - 1))])
    k = len(nodes) - 1
    nodes += [gate(draw(st.sampled_from(['wp', 'mix', 'mixg', 'mix', 'wpc', 'psc', 'meas']))) for _ in range(draw(st.integers(1, 3)))]
    full = list(range(N)) if draw(st.booleans()) else draw(G.subset(N))
    nodes.append(['meas', full, draw(G.subset(C, len(full), len(full)))])
    return dict(L=L, N=N, C=C, w=w, left=draw(st.booleans()), full=draw(st.booleans()), pw=draw(st.booleans()), delay=k, nodes=nodes,
                states=draw(T.states(L, N, C, T.delays)))


def check(case, ctx):
    """Statistics after one quick delay against the mixture of the undelayed and the fully separated pulses."""
    c = T.circuit(case)
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    out = c.evaluate_circuit(collection_of_states_input=coll)
    lib.need(lib.snapshot(coll) == before, 'the input collection changed')
    branches = T.expected(case)
    got, want = T.table(out, case), T.summary(branches, case)
    compare(got, want, 2e-4, 'outcomes after %s' % case['nodes'])
    hist = T.histories(out)
    for b in branches:
        lib.need(b.prob < 1e-4 or T.history(b) in hist, 'no state with values and history %s' % (T.history(b),))
    plain = T.summary(T.expected(dict(case, nodes=[x for x in case['nodes'] if x[0] not in ('qd', 'qdc')])), case)
    ctx.label(case['nodes'][case['delay']][0])
    if any(abs(plain.get(k, 0) - want.get(k, 0)) > 1e-3 for k in set(plain) | set(want)):
        ctx.label('delay visible')
        ctx.nt()


@st.composite
def interferometers(draw):
    N = draw(st.integers(2, 3))
    a, b = draw(G.pair(N))
    return dict(L=3, N=N, C=2, w=draw(st.sampled_from([1.0, 2.0, 0.5])), left=draw(st.booleans()), full=draw(st.booleans()), a=a, b=b,
                refl=draw(G.refl), delay=draw(T.delays), cum=draw(st.sampled_from([1.0, 0.5])), back=draw(st.sampled_from([None, 1.0, 0.5, -2.0])),
                how=draw(st.sampled_from(['td', 'tdc', 'qd', 'qdc'])), both=draw(st.booleans()))


def check_hom(case, ctx):
    """Two photons on a beam splitter with a delay: the coincidence rate is R^2 + T^2 - 2 R T exp(-ln 2 (t/w)^2) for every kind of delay."""
    N, a, b, d, how = case['N'], case['a'], case['b'], case['delay'], case['how']
    v = [0] * N
    v[a] = v[b] = 1
    spec = dict(case, nodes=[], states=[dict(init='i', cum=case['cum'], comps=[[v, [1.0, 0.0]]], cl=[d, 0])])
    chs = [a]
    if case['both']:              # a delay of both photons is no delay
        chs = [a, b]
    nodes = [[how, chs, 0 if how in ('tdc', 'qdc') else d]]
    t = 0.0 if case['both'] else d
    if case['back'] is not None and how in ('td', 'tdc'):     # delays add up
        nodes.append(['td', [b], case['back']])
        t -= case['back']
    nodes += [['mixg', a, b, case['refl']], ['meas', [a, b], [0, 1]]]
    c = T.circuit(spec, nodes)
    out = c.evaluate_circuit(collection_of_states_input=lib.collection(c, spec, spec['states']))
    got = {k[1]: p for k, p in T.table(out, spec).items()}
    R = case['refl']
    want = (R * R + (1 - R) ** 2 - 2 * R * (1 - R) * math.exp(-math.log(2) * (t / case['w']) ** 2)) * case['cum']
    lib.need(abs(got.get('11', 0) - want) < 2e-4, 'coincidences %.5f, expected %.5f' % (got.get('11', 0), want))
    rest = (case['cum'] - want) / 2
    for k in ('20', '02'):
        lib.need(abs(got.get(k, 0) - rest) < 2e-4, 'outcome %s: %.5f, expected %.5f' % (k, got.get(k, 0), rest))
    ctx.label(how)
    ctx.nt(t != 0 and 0 < R < 1)


SCALE = 1.5
FACETS = [Facet('quick', circuits(), check, 960, 16000), Facet('dip', interferometers(), check_hom, 240, 4000)]
