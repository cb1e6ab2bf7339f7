"""Building circuits and collections from JSON cases, and reading collections back, through the public API only."""
import math
import numpy as np
import fock_state_circuit as fsc
from fsv import oracle as O
from fsv.core import Violation


def need(cond, msg):
    if not cond:
        raise Violation(msg)


def circuit(spec, nodes=None):
    thr = spec.get('thr', 1e-9)
    c = fsc.FockStateCircuit(length_of_fock_state=spec['L'], no_of_optical_channels=spec['N'],
                             no_of_classical_channels=spec.get('C', 0),
                             channel_0_left_in_state_name=spec.get('left', True),
                             **({} if thr == 'default' else dict(threshold_probability_for_setting_to_zero=thr)),
                             use_full_fock_matrix=spec.get('full', False),
                             circuit_name=spec.get('name'))
    for node in (spec.get('nodes', []) if nodes is None else nodes):
        add(c, node, spec)
    return c


def node_spans(spec, nodes=None):
    """For each node of the case the list of positions it has in the circuit (some components add two nodes)."""
    spans, n = [], 0
    c = circuit(spec, [])
    for node in (spec.get('nodes', []) if nodes is None else nodes):
        add(c, node, spec)
        spans.append(list(range(n, len(c.node_list))))
        n = len(c.node_list)
    return spans


def gen_cset(coll, params):
    for state in coll:
        cl = state.classical_channel_values
        state.classical_channel_values = [cl[(i + 1) % len(cl)] for i in range(len(cl))]
    return coll


def gen_phase(coll, params):
    for state in coll:
        comps = {}
        for name, ap in state.optical_components.items():
            # the digits sum is the photon number for at most ten levels per channel; for more the oracle name parser is used
            n = sum(O.values_of(name, params[0], params[1]))
            comps[name] = {'amplitude': ap['amplitude'] * (1j ** n), 'probability': ap['probability']}
        state.optical_components = comps
    return coll


def add(c, node, spec):
    op, *p = node
    if op == 'wp':
        c.wave_plate(p[0], p[1], theta=p[2], phi=p[3])
    elif op == 'hwp':
        c.half_wave_plate(p[0], p[1], angle=p[2])
    elif op == 'qwp':
        c.quarter_wave_plate(p[0], p[1], angle=p[2])
    elif op == 'hwp225':
        c.half_wave_plate_225(p[0], p[1])
    elif op == 'hwp45':
        c.half_wave_plate_45(p[0], p[1])
    elif op == 'qwp225':
        c.quarter_wave_plate_225(p[0], p[1])
    elif op == 'qwp45':
        c.quarter_wave_plate_45(p[0], p[1])
    elif op == 'mix':
        c.mix_50_50(p[0], p[1])
    elif op == 'mixg':
        c.mix_generic_refl_transm(p[0], p[1], reflection=p[2], transmission=1 - p[2])
    elif op == 'swap':
        c.swap(p[0], p[1])
    elif op == 'ps':
        c.phase_shift_single_channel(channel_for_shift=p[0], phase_shift=p[1])
    elif op == 'pbs':
        c.polarizing_beamsplitter(input_channels_a=tuple(p[0]), input_channels_b=tuple(p[1]))
    elif op == 'npbs50':
        c.non_polarizing_50_50_beamsplitter(input_channels_a=tuple(p[0]), input_channels_b=tuple(p[1]))
    elif op == 'npbs':
        c.non_polarizing_beamsplitter(input_channels_a=tuple(p[0]), input_channels_b=tuple(p[1]),
                                      reflection=p[2], transmission=1 - p[2])
    elif op == 'copt':
        c.custom_optical_node(np.array([[complex(*x) for x in row] for row in p[1]], dtype=np.cdouble), optical_channels=list(p[0]))
    elif op == 'wpc':
        c.wave_plate_classical_control(optical_channel_horizontal=p[0], optical_channel_vertical=p[1],
                                       classical_channel_for_orientation=p[2], classical_channel_for_phase_shift=p[3])
    elif op == 'psc':
        c.phase_shift_single_channel_classical_control(optical_channel_to_shift=p[0], classical_channel_for_phase_shift=p[1])
    elif op == 'wph':
        c.wave_plate_from_hamiltonian(p[0], p[1], theta=p[2], phi=p[3])
    elif op == 'wphc':
        c.wave_plate_from_hamiltonian_classical_control(p[0], p[1], p[2], p[3])
    elif op == 'setc':
        c.set_classical_channels(list_of_values_for_classical_channels=list(p[0]), list_of_classical_channel_numbers=list(p[1]))
    elif op == 'cfun':
        c.classical_channel_function(O.CLASSICAL_FUNCTIONS[p[0]], affected_channels=list(p[1]), new_input_values=list(p[2]))
    elif op == 'meas':
        c.measure_optical_to_classical(optical_channels_to_be_measured=list(p[0]), classical_channels_to_be_written=list(p[1]))
    elif op == 'shift':
        c.shift(target_channels=list(p[0]), shift_per_channel=list(p[1]))
    elif op == 'shiftd':
        c.shift_direct(target_channels=list(p[0]), shift_per_channel=list(p[1]))
    elif op == 'cs':
        c.c_shift(control_channels=list(p[0]), target_channels=list(p[1]))
    elif op == 'csd':
        c.c_shift_direct(control_channels=list(p[0]), target_channels=list(p[1]))
    elif op == 'fperm':
        n = spec['L'] ** spec['N']
        M = np.zeros((n, n), dtype=np.cdouble)
        perm = O.permutation(p[0], n)
        for k in range(n):
            M[perm[k]][k] = np.exp(1j * p[1][k % len(p[1])])
        c.custom_fock_state_node(custom_fock_matrix=M)
    elif op == 'gen':
        f = {'cset': gen_cset, 'phase': gen_phase}[p[0]]
        c.generic_function_on_collection(f, parameters=[spec['L'], spec.get('left', True)])
    else:
        raise ValueError(op)


def collection(c, spec, states):
    """A collection with the given states: dicts with init, cum, comps [[values, [re, im]], ..], cl, hist."""
    coll = fsc.CollectionOfStates(fock_state_circuit=c, input_collection_as_a_dict=dict([]))
    for i, s in enumerate(states):
        coll.add_state(state(coll, spec, s), identifier=s.get('id'))
    return coll


def comps_of(s):
    return {tuple(v): complex(*a) for v, a in s['comps']}


def state(coll, spec, s):
    st = fsc.State(collection_of_states=coll)
    st.initial_state = s['init']
    st.cumulative_probability = s.get('cum', 1.0)
    st.optical_components = {O.name_of(v, spec['L'], spec.get('left', True)):
                             {'amplitude': np.cdouble(complex(*a)), 'probability': abs(complex(*a)) ** 2} for v, a in s['comps']}
    if 'cl' in s:
        st.classical_channel_values = list(s['cl'])
    if s.get('hist'):
        st.measurement_results = [{'measurement_results': list(h[0]), 'probability': h[1]} for h in s['hist']]
    return st


def model(s, C=0):
    return O.MState(s['init'], s.get('cum', 1.0), comps_of(s), s.get('cl', [0] * C), [(tuple(h[0]), h[1]) for h in s.get('hist', [])])


class Read:
    """A state read back."""
    def __init__(self, ident, st, spec):
        try:
            self.id = ident
            self.init = st.initial_state
            self.cum = float(st.cumulative_probability)
            self.comps = {}
            for name, ap in st.optical_components.items():
                v = O.values_of(name, spec['L'], spec.get('left', True))
                amp = complex(ap['amplitude'])
                need(math.isfinite(amp.real) and math.isfinite(amp.imag), 'amplitude of %r is not finite' % name)
                need(abs(abs(amp) ** 2 - ap['probability']) < 1e-3,
                     'component %r: probability %r is not the square of the amplitude %r' % (name, ap['probability'], amp))
                need(len(v) == spec['N'] and all(0 <= x < spec['L'] for x in v), 'component name %r is not in the basis' % name)
                self.comps[v] = self.comps.get(v, 0) + amp
            self.cl = [float(x) for x in st.classical_channel_values]
            need(len(self.cl) == spec.get('C', 0), '%d classical values for %d channels' % (len(self.cl), spec.get('C', 0)))
            self.hist = [(tuple(float(x) for x in h['measurement_results']), float(h['probability']))
                         for h in st.measurement_results]
            need(math.isfinite(self.cum), 'cumulative probability is not finite')
        except Violation:
            raise
        except Exception as exc:     # noqa: BLE001
            raise Violation('state %r cannot be read: %s: %s' % (ident, type(exc).__name__, exc))


def read(coll, spec):
    need(coll is not None, 'no collection was returned')
    try:
        items = list(coll.items())
        n = len(coll)
    except Exception as exc:     # noqa: BLE001
        raise Violation('the collection cannot be read: %s: %s' % (type(exc).__name__, exc))
    need(n == len(items), 'len() is %d but there are %d states' % (n, len(items)))
    return [Read(k, st, spec) for k, st in items]


def read_one(coll, spec):
    r = read(coll, spec)
    need(len(r) == 1, 'expected one state, got %d' % len(r))
    return r[0]


def close(x, y, tol, what):
    d = O.distance(x, y)
    need(d <= tol, '%s: amplitudes differ by %.3g\n got      %s\n expected %s' % (what, d, show(x), show(y)))


def show(comps):
    return ', '.join('%s: %.4f%+.4fi' % (''.join(map(str, k)) if max(k, default=0) < 10 else str(k), a.real, a.imag)
                     for k, a in sorted((k, complex(a)) for k, a in comps.items()) if abs(a) > 1e-6)


def key(s):
    return (s.init, tuple(round(x, 4) + 0.0 for x in s.cl), tuple(tuple(round(x, 4) + 0.0 for x in h[0]) for h in s.hist))


def compare(got, want, tol=5e-4, ptol=5e-4, pmin=1e-5, what='result'):
    """Compare read states with model states. Branches with a cumulative probability below pmin may be missing on either side."""
    g, w = {}, {}
    for s in got:
        g.setdefault(key(s), []).append(s)
    for s in want:
        w.setdefault(key(s), []).append(s)
    for k in set(g) | set(w):
        gs = sorted((s for s in g.get(k, []) if s.cum >= pmin), key=order)
        ws = sorted((s for s in w.get(k, []) if s.cum >= pmin), key=order)
        if len(gs) != len(ws):
            # a branch may sit on either side of the limit
            lim = [s for s in g.get(k, []) + w.get(k, []) if pmin / 2 <= s.cum <= 2 * pmin]
            need(lim, '%s: %d states for (initial state, classical values, history) %s, expected %d\n got %s\n expected %s' % (
                what, len(gs), k, len(ws), [(s.cum, show(s.comps)) for s in g.get(k, [])], [(s.cum, show(s.comps)) for s in w.get(k, [])]))
            continue
        left = list(ws)
        for s in gs:
            # rare branches of different origin are within the tolerance of each other: prefer the one with the same history
            best = min(left, key=lambda t: (abs(t.cum - s.cum) > ptol, not same_history(s, t, 10 * ptol), O.distance(t.comps, s.comps)))
            left.remove(best)
            need(abs(best.cum - s.cum) <= ptol, '%s: cumulative probability %.6f, expected %.6f (%s)' % (what, s.cum, best.cum, k))
            t = tol if s.cum > 0.01 else max(tol, 1e-4 / math.sqrt(s.cum))
            close(s.comps, best.comps, t, '%s: optical state of %s' % (what, k))
            need(same_history(s, best, 10 * ptol),
                 '%s: measurement history %s, expected %s' % (what, s.hist, best.hist))


def same_history(s, t, tol):
    return len(s.hist) == len(t.hist) and all(abs(a[1] - b[1]) < tol for a, b in zip(s.hist, t.hist))


def order(s):
    return (-round(s.cum, 3), sorted(s.comps))


def snapshot(coll):
    """Everything observable about a collection, as a comparable value."""
    out = []
    for k, st in coll.items():
        out.append((k, st.initial_state, float(st.cumulative_probability),
                    sorted((n, complex(a['amplitude']), float(a['probability'])) for n, a in st.optical_components.items()),
                    [float(x) for x in st.classical_channel_values],
                    [(list(map(float, h['measurement_results'])), float(h['probability'])) for h in st.measurement_results],
                    repr(sorted((st.auxiliary_information or {}).items(), key=str))))
    return out


def snapshot_free(coll):
    """A snapshot without the identifiers, which can be random."""
    return [s[1:] for s in snapshot(coll)]
