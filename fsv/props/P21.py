"""Measurements of photons with timing: probabilities, history, repetition, projections."""
import math
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, pulses as T
from fsv.core import Facet
from fsv.props.P19 import circuits, compare, settle

RULE = ('a case is a circuit with time delays and one to four measurements; it is non-trivial when at least two outcomes are possible and the pulses have '
        'been separated before a measurement')
ASSUMPTIONS = ['fewer photons in total than the length of the Fock state (at most three photons)', 'one pulse width for all photons']


def separated(case):
    for n in case['nodes']:
        if n[0] in ('td', 'tdc') and len(n[1]) < case['N'] and not (n[0] == 'td' and n[2] == 0):
            return True
    return False


@st.composite
def sequences(draw):
    case = draw(circuits())
    N, C = case['N'], case['C']
    case['twice'] = draw(G.subset(N))
    case['first'] = draw(st.booleans())
    return case


def check_history(case, ctx):
    """One entry per measurement, with the probability of that outcome; the product of the probabilities is the probability of the state."""
    case = settle(case)
    if case['first']:
        case['nodes'] = [['td', [0], 0.5]] + case['nodes']
    if sum(n[0] == 'meas' for n in case['nodes'][:-1]) == 0 and case['C'] >= 1:
        case['nodes'] = case['nodes'][:-1] + [['meas', case['twice'][:1], [case['C'] - 1]], case['nodes'][-1]]
    c = T.circuit(case)
    coll = lib.collection(c, case, case['states'])
    out = c.evaluate_circuit(collection_of_states_input=coll)
    want = {}
    for b in T.expected(case):
        want.setdefault(T.history(b), []).append([h[1] for h in b.hist])
    n = sum(x[0] == 'meas' for x in case['nodes'])
    for s in out:
        h = s.measurement_results
        lib.need(len(h) == n, '%d measurements, %d entries in the history' % (n, len(h)))
        for m in h:
            lib.need(len(m['measurement_results']) == case['C'] and -1e-6 <= m['probability'] <= 1 + 1e-4, 'history entry %s' % m)
        k = (s.initial_state, T.rnd(s.classical_channel_values), tuple(T.rnd(m['measurement_results']) for m in h))
        p = [float(m['probability']) for m in h]
        q = want.get(k)
        if q is None:
            lib.need(math.prod(p) < 1e-5, 'outcome %s with probabilities %s cannot occur' % (k, p))
            continue
        if math.prod(q[0]) > 1e-2:
            lib.need(all(abs(x - y) < 1e-3 for x, y in zip(p, q[0])), 'history %s has probabilities %s, expected %s' % (k, p, q[0]))
            ctx.label('matched')
    ctx.label('measurements %d' % n)
    ctx.nt(separated(case) and len(want) > 1)


def check_repeat(case, ctx):
    """Measuring the same channels again into other classical channels gives the same photon numbers with certainty and keeps all probabilities."""
    case = settle(case)
    N, C = case['N'], case['C']
    chs = case['twice']
    spec = dict(case, C=C + 2 * N, states=[dict(s, cl=list(s['cl']) + [0] * (2 * N)) for s in case['states']])
    nodes = [n for n in case['nodes'][:-1] if not (n[0] == 'cfun' and n[1] == 'rev')]
    a = ['meas', chs, list(range(C, C + len(chs)))]
    b = ['meas', chs, list(range(C + N, C + N + len(chs)))]
    once, twice = T.circuit(spec, nodes + [a]), T.circuit(spec, nodes + [a, b])
    coll = lambda c: lib.collection(c, spec, spec['states'])
    r1 = T.table(once.evaluate_circuit(collection_of_states_input=coll(once)), spec, a[2])
    o2 = twice.evaluate_circuit(collection_of_states_input=coll(twice))
    r2 = T.table(o2, spec, a[2] + b[2])
    want = {}
    for (init, name), p in r1.items():
        want[(init, name + name)] = p
    compare(r2, want, 2e-4, 'repeated measurement')
    for s in spec['states']:
        lib.need(abs(sum(p for k, p in r1.items() if k[0] == s['init']) - s.get('cum', 1.0)) < 1e-4, 'the probabilities do not add up')
    ctx.nt(separated(dict(case, nodes=nodes)) and len([p for p in r1.values() if p > 1e-3]) > len(case['states']))


@st.composite
def projected(draw):
    case = draw(circuits())
    N, L = case['N'], case['L']
    case['left'] = draw(st.booleans())
    top = draw(st.sampled_from([None, L - 1]))
    vals = draw(st.lists(G.values(L, N, L - 1), min_size=draw(st.integers(0, 2)), max_size=7))
    case['list'] = [list(v) for v in sorted({tuple(v if top is None else G.fix_sum(v, top, L)) for v in vals})]
    return case


def check_projection(case, ctx):
    """A list of projections keeps the probabilities of the listed outcomes and leaves out the others."""
    case = settle(case)
    N, C = case['N'], case['C']
    nodes = [n for n in case['nodes'][:-1] if n[0] != 'meas']
    if not any(n[0] in ('td', 'tdc', 'spw') for n in nodes):
        return
    on, to = case['nodes'][-1][1:]
    spec = dict(case, nodes=nodes)
    names = [O.name_of(v, case['L'], case['left']) for v in case['list']]
    c = T.circuit(spec)
    c.measure_optical_to_classical(list(on), list(to), list_of_projections=list(names))
    out = c.evaluate_circuit(collection_of_states_input=lib.collection(c, spec, spec['states']))
    got = T.table(out, spec, to) if len(out) else {}
    want = {}
    allowed = {tuple(v) for v in case['list']}
    total = 0
    for b in T.expected(spec):
        for v, (q, pp) in T.measure(b.p, range(N), b.w or case['w']).items():
            total += 1
            if v in allowed:
                k = (b.init, T.outcome_name([v[x] for x in on], spec))
                want[k] = want.get(k, 0) + b.prob * q
    compare(got, want, 2e-4, 'outcomes projected on %s' % names)
    ctx.label('empty' if not want else 'kept')
    ctx.nt(0 < len(want) and len(allowed) < total and separated(spec))


FACETS = [Facet('history', sequences(), check_history, 320, 6000), Facet('repeat', sequences(), check_repeat, 240, 5000),
          Facet('projection', projected(), check_projection, 240, 5000)]
