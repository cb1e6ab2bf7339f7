"""Arguments that are left out act as their documented defaults, whatever the way of passing the others."""
import math
import numpy as np
import matplotlib.pyplot as plt
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog, pulses as P
from fsv.core import Facet

RULE = 'a case is a list of calls with some of their arguments left out; it is non-trivial when an argument is left out and the result differs from the input'
REQ = object()
PAIR = dict(channel_horizontal=0, channel_vertical=1)
TWO = dict(first_channel=0, second_channel=1)
BS = dict(input_channels_a=(0, 1), input_channels_b=(2, 3))
CTRL = dict(optical_channel_horizontal=0, optical_channel_vertical=1, classical_channel_for_orientation=0, classical_channel_for_phase_shift=0)
# the documented defaults, in the documented order of the arguments
TABLE = {
    'wave_plate': dict(PAIR, theta=0, phi=0), 'half_wave_plate': dict(PAIR, angle=0), 'quarter_wave_plate': dict(PAIR, angle=0),
    'half_wave_plate_225': PAIR, 'half_wave_plate_45': PAIR, 'quarter_wave_plate_225': PAIR, 'quarter_wave_plate_45': PAIR,
    'mix_50_50': TWO, 'swap': TWO, 'mix_generic_refl_transm': dict(TWO, reflection=0, transmission=1),
    'phase_shift_single_channel': dict(channel_for_shift=0, phase_shift=0),
    'polarizing_beamsplitter': BS, 'non_polarizing_50_50_beamsplitter': BS, 'non_polarizing_beamsplitter': dict(BS, reflection=0, transmission=1),
    'wave_plate_classical_control': CTRL, 'wave_plate_from_hamiltonian': dict(PAIR, theta=0, phi=0),
    'wave_plate_from_hamiltonian_classical_control': CTRL,
    'phase_shift_single_channel_classical_control': dict(optical_channel_to_shift=0, classical_channel_for_phase_shift=0),
    'measure_optical_to_classical': dict(optical_channels_to_be_measured=[0], classical_channels_to_be_written=[0], list_of_projections=None),
    'c_shift': dict(control_channels=[0], target_channels=[1]), 'c_shift_direct': dict(control_channels=[0], target_channels=[1]),
    'channel_coupling': dict(control_channels=[0], target_channels=[1], coupling_strength=0),
    'shift': dict(target_channels=[1], shift_per_channel=[0]), 'shift_direct': dict(target_channels=[1], shift_per_channel=[0])}
SPECTRAL = {
    'time_delay': dict(affected_channels=REQ, delay=0, pulse_width=1), 'time_delay_full': dict(affected_channels=REQ, delay=0, pulse_width=1),
    'time_delay_classical_control': dict(affected_channels=REQ, classical_channel_for_delay=0, pulse_width=1),
    'time_delay_classical_control_full': dict(affected_channels=REQ, classical_channel_for_delay=0, pulse_width=1)}
QUICK = ('time_delay', 'time_delay_classical_control')
# arguments that must be left out or given together
TIED = [('reflection', 'transmission')]
COLOURS = ['red', 'green']


@st.composite
def argument(draw, method, name, N, C, L, width):
    """A value for an argument, among which often the default value."""
    if method == 'wave_plate_from_hamiltonian' and name in ('theta', 'phi'):
        return draw(st.integers(-20, 20)) / 10          # the range in which the exponential is accurate (see P13)
    if name in ('theta', 'phi', 'angle', 'phase_shift'):
        return draw(G.angle)
    if name in ('reflection', 'coupling_strength'):
        return draw(G.refl)
    if name.startswith('classical_channel'):
        return draw(st.integers(0, C - 1)) if name != 'classical_channels_to_be_written' else [draw(st.integers(0, C - 1))]
    if name in ('optical_channels_to_be_measured', 'control_channels', 'target_channels'):
        return [draw(st.integers(0, N - 1))]
    if name == 'shift_per_channel':
        return [draw(st.integers(0, L))]
    if name == 'affected_channels':
        return draw(G.subset(N, 1, 2))
    if name == 'delay':
        return draw(st.sampled_from([0.5, 1.0, 2.0, -0.7, 0.0]))
    if name == 'pulse_width':
        return width
    if name == 'list_of_projections':
        return None
    return draw(st.integers(0, N - 1))


@st.composite
def call(draw, N, C, L, names, width=1.0):
    method = draw(st.sampled_from(names))
    table = TABLE.get(method) or SPECTRAL[method]
    args = {}
    for name, default in table.items():
        if name.startswith('input_channels') or name == 'transmission':
            continue
        args[name] = draw(argument(method, name, N, C, L, width))
    if 'reflection' in table:
        args['transmission'] = 1 - args['reflection']
    if 'input_channels_a' in table:
        p = draw(st.permutations(range(N)))
        args.update(input_channels_a=list(p[:2]), input_channels_b=list(p[2:4]))
        args = {k: args[k] for k in table}
    left = {k for k in table if table[k] is not REQ and draw(st.booleans())}
    for t in TIED:
        if any(x in left for x in t):
            left |= {x for x in t if x in table}
    full = {k: (args[k] if k not in left else table[k]) for k in table}
    # the two channels of a node must differ: take the defaults or other ones
    for a, b in (('channel_horizontal', 'channel_vertical'), ('first_channel', 'second_channel'), ('optical_channel_horizontal', 'optical_channel_vertical'),
                 ('control_channels', 'target_channels')):
        if a in full and full[a] == full[b]:
            k = a if a not in left else b
            if k in left:
                left -= {k}
            old = full[b if k == a else a]
            new = ((old[0] + 1) % N) if isinstance(old, list) else (old + 1) % N
            full[k] = [new] if isinstance(old, list) else new
    if 'input_channels_a' in full and set(full['input_channels_a']) & set(full['input_channels_b']):
        k = 'input_channels_a' if 'input_channels_a' not in left else 'input_channels_b'
        other = full['input_channels_b' if k == 'input_channels_a' else 'input_channels_a']
        rest = [x for x in range(N) if x not in other]
        full[k] = list(draw(st.permutations(rest))[:2])
        left -= {k}
    return dict(method=method, args=[[k, list(v) if isinstance(v, tuple) else v] for k, v in full.items()], left=sorted(left),
                how=draw(st.sampled_from(['keyword', 'position', 'shuffled'])), info=draw(st.sampled_from([None, None, 'empty', 'label', 'all'])),
                number=draw(st.booleans()))


def info(kind):
    return {None: None, 'empty': {}, 'label': {'label': 'mine'}, 'all': {'label': 'x', 'markercolor': ['red'], 'markersize': 25, 'marker_text': ['q']}}[kind]


def value(k, v):
    return tuple(v) if k.startswith('input_channels') else v


def plain(c, k):
    """The call with every argument given by keyword, defaults from the table."""
    getattr(c, k['method'])(**{n: value(n, v) for n, v in k['args']})


def short(c, k):
    """The call with arguments left out."""
    args = [(n, value(n, v)) for n, v in k['args']]
    if k['number'] and k['method'] in ('c_shift', 'channel_coupling'):
        args = [(n, v[0] if n.endswith('_channels') else v) for n, v in args]
    kw = {} if k['info'] is None else {'node_info': info(k['info'])}
    left = set(k['left'])
    if k['how'] == 'position':
        # the leading arguments by position, up to the last one that is not left out before a gap
        pos = []
        for n, v in args:
            if n in left:
                break
            pos.append(v)
        kw.update({n: v for n, v in args[len(pos):] if n not in left})
        getattr(c, k['method'])(*pos, **kw)
    else:
        named = [(n, v) for n, v in args if n not in left]
        if k['how'] == 'shuffled':
            named = named[::-1]
        getattr(c, k['method'])(**dict(named), **kw)


@st.composite
def nodes(draw):
    N = draw(st.integers(4, 5))
    L = draw(st.integers(2, 4 if N == 4 else 3))
    C = draw(st.integers(1, 3))
    # 4 to 81 * ... states: matrix nodes only in small circuits
    names = sorted(TABLE)
    if L ** N > 100 or L > 3:
        names = [n for n in names if n not in ('c_shift', 'shift', 'channel_coupling', 'wave_plate_from_hamiltonian', 'wave_plate_from_hamiltonian_classical_control')]
    return dict(L=L, N=N, C=C, **draw(G.flags), calls=draw(st.lists(call(N, C, L, names), min_size=1, max_size=3)),
                states=[draw(G.state(L, N, C, max(1, L - 1), max_terms=3, cvals=st.one_of(st.integers(0, L - 1), st.integers(-20, 20).map(lambda k: k / 10)))) for _ in range(draw(st.integers(1, 2)))], pre=draw(st.lists(G.optical_node(N), max_size=1)))


def equal(x, y, what):
    lib.need(len(x) == len(y), '%s: %d states, expected %d' % (what, len(x), len(y)))
    for a, b in zip(x, y):
        lib.need(a.init == b.init and a.cl == b.cl and a.hist == b.hist and abs(a.cum - b.cum) < 1e-9, '%s: %s, expected %s' % (
            what, (a.init, a.cum, a.cl, a.hist), (b.init, b.cum, b.cl, b.hist)))
        lib.close(a.comps, b.comps, 1e-9, what)


def describe(k):
    return '%s(%s)' % (k['method'], ', '.join('%s=%s' % (n, v) for n, v in k['args'] if n not in k['left']))


def check_nodes(case, ctx):
    """Nodes with arguments left out, or given by position or in another order, act as with the documented defaults written out."""
    a, b = lib.circuit(dict(case, nodes=case['pre'])), lib.circuit(dict(case, nodes=case['pre']))
    for k in case['calls']:
        plain(a, k)
        short(b, k)
    lib.need(len(a.node_list) == len(b.node_list), '%s adds %d nodes, expected %d' % ([describe(k) for k in case['calls']], len(b.node_list), len(a.node_list)))
    want = lib.read(a.evaluate_circuit(collection_of_states_input=lib.collection(a, case, case['states'])), case)
    got = lib.read(b.evaluate_circuit(collection_of_states_input=lib.collection(b, case, case['states'])), case)
    equal(got, want, 'after %s' % '; '.join(describe(k) for k in case['calls']))
    for k in case['calls']:
        ctx.label(k['method'], 'left%d' % len(k['left']))
    ctx.nt(any(k['left'] for k in case['calls']) and prog.changed(case, got))


@st.composite
def spectral(draw):
    N, C = draw(st.integers(2, 3)), draw(st.integers(1, 2))
    L = 3
    kind = draw(st.sampled_from(['quick', 'full']))
    names = [n for n in sorted(SPECTRAL) if (n in QUICK) == (kind == 'quick')]
    width = draw(st.sampled_from([1.0, 1.0, 0.5, 2.0]))
    calls = [draw(call(N, C, L, names, width))]
    if kind == 'full' and draw(st.booleans()):
        calls.append(draw(call(N, C, L, names, width)))
    # all nodes of a circuit with the same width
    if any('pulse_width' in k['left'] for k in calls):
        width = 1.0
    for k in calls:
        k['args'] = [[n, width if n == 'pulse_width' else v] for n, v in k['args']]
    chs = draw(G.subset(N, 1, min(N, C)))
    return dict(L=L, N=N, C=C, left=draw(st.booleans()), full=False, w=width, calls=calls, mix=[draw(G.pair(N)) for _ in range(2)],
                meas=[chs, draw(G.subset(C, len(chs), len(chs)))], nodes=[], setpw=draw(st.sampled_from([None, 'default', 'empty', 'all'])),
                states=draw(P.states(L, N, C, st.sampled_from([0, 1, 0.5]), hi=1)))


OPS = {'time_delay': 'qd', 'time_delay_full': 'td', 'time_delay_classical_control': 'qdc', 'time_delay_classical_control_full': 'tdc'}


def check_spectral(case, ctx):
    """Time delays and pulse widths with arguments left out give the statistics of delays by the documented defaults."""
    c = lib.circuit(dict(case, nodes=[]))
    nodes = [['mix'] + case['mix'][0]]
    lib.add(c, nodes[0], case)
    for k in case['calls']:
        short(c, k)
        args = dict(k['args'])
        nodes.append([OPS[k['method']], args['affected_channels'], args['delay'] if 'delay' in args else args['classical_channel_for_delay']])
    if case['setpw'] == 'default':
        c.set_pulse_width(pulse_width=case['w'])
    elif case['setpw'] == 'empty' and OPS[case['calls'][0]['method']] in ('td', 'tdc'):
        c.set_pulse_width([], case['w'] * 3)
    elif case['setpw'] == 'all':
        c.set_pulse_width(affected_channels=list(range(case['N'])), pulse_width=case['w'])
    for n in (['mix'] + case['mix'][1], ['meas'] + case['meas']):
        lib.add(c, n, case)
        nodes.append(n)
    out = c.evaluate_circuit(collection_of_states_input=lib.collection(c, case, case['states']))
    got, want = P.table(out, case), P.summary(P.expected(case, nodes), case)
    for k in set(got) | set(want):
        lib.need(abs(got.get(k, 0) - want.get(k, 0)) < 4e-3, 'after %s: probability of %s is %.5f, expected %.5f' % (
            '; '.join(describe(x) for x in case['calls']), k, got.get(k, 0), want.get(k, 0)))
    ctx.label(*[k['method'] for k in case['calls']])
    ctx.nt(any(k['left'] for k in case['calls']) and len(want) > 1)


CIRCUIT = dict(length_of_fock_state=2, no_of_optical_channels=2, no_of_classical_channels=0, channel_0_left_in_state_name=True,
               threshold_probability_for_setting_to_zero=0.0001, use_full_fock_matrix=False, circuit_name=None)


@st.composite
def circuits(draw):
    args = dict(length_of_fock_state=draw(st.integers(2, 4)), no_of_optical_channels=draw(st.integers(2, 3)), no_of_classical_channels=draw(st.integers(0, 2)),
                channel_0_left_in_state_name=draw(st.booleans()), threshold_probability_for_setting_to_zero=draw(st.sampled_from([1e-4, 1e-9, 0.05])),
                use_full_fock_matrix=draw(st.booleans()), circuit_name=draw(st.sampled_from(['x', 'one two'])))
    left = sorted(k for k in args if draw(st.booleans()))
    full = {k: CIRCUIT[k] if k in left else v for k, v in args.items()}
    L, N = full['length_of_fock_state'], full['no_of_optical_channels']
    # one photon in channel 1, a rotation that brings a given probability to channel 0 and a measurement when there are classical channels
    return dict(args=[[k, full[k]] for k in CIRCUIT], left=left, position=draw(st.booleans()), split=draw(st.sampled_from([0, 0.02, 0.2, 0.3, 0.5, 0.9])),
                small=draw(st.sampled_from([5e-6, 6e-5, 6e-5, 1.6e-4, 1.6e-4, 1e-3, 0.03, 0.2])))


def check_circuits(case, ctx):
    """A circuit made with arguments left out is the circuit with the documented defaults; a circuit without arguments is the smallest one."""
    args, left = dict(case['args']), set(case['left'])
    if case['position']:
        pos = []
        for k in CIRCUIT:
            if k in left:
                break
            pos.append(args[k])
        c = fsc.FockStateCircuit(*pos, **{k: args[k] for k in list(CIRCUIT)[len(pos):] if k not in left})
    else:
        c = fsc.FockStateCircuit(**{k: v for k, v in args.items() if k not in left})
    L, N, C = args['length_of_fock_state'], args['no_of_optical_channels'], args['no_of_classical_channels']
    spec = dict(L=L, N=N, C=C, left=args['channel_0_left_in_state_name'])
    lib.need(list(c.basis()) == [O.name_of(O.values_at(i, L, N), L, spec['left']) for i in range(L ** N)], 'basis of %s is %s' % (case, list(c.basis())))
    if args['circuit_name']:
        lib.need(args['circuit_name'] in str(c), 'the name is not in the text of the circuit')
    # every basis state once, classical channels 0: the default collection
    coll = lib.read(fsc.CollectionOfStates(c), spec)
    lib.need(len(coll) == L ** N and all(s.cl == [0.0] * C and s.cum == 1 and not s.hist for s in coll), 'default collection')
    q = case['small']
    a = math.asin(math.sqrt(q))
    c.half_wave_plate(0, 1, angle=a / 2)
    got = lib.read_one(c.evaluate_circuit(collection_of_states_input=lib.collection(c, spec, [dict(init='s', comps=[[[0, 1] + [0] * (N - 2), [1, 0]]])])), spec)
    thr = args['threshold_probability_for_setting_to_zero']
    comps = {v: abs(x) ** 2 for v, x in got.comps.items() if abs(x) > 0}
    key = tuple([1, 0] + [0] * (N - 2))
    # a component well above or below the threshold is there or is not
    if q > 1.5 * thr:
        lib.need(abs(comps.get(key, 0) - q) < 0.1 * q, 'a component with probability %g is %s with threshold %g' % (q, comps.get(key), thr))
    elif q < thr / 1.5:
        lib.need(key not in comps, 'a component with probability %g is kept with threshold %g' % (q, thr))
    ctx.label('left%d' % len(left), 'above' if q > thr else 'below')
    ctx.nt(len(left) > 0)


@st.composite
def collections(draw):
    p = draw(prog.program(max_size=90, Nmax=3, Cmin=0, nodes=(0, 2), states=(1, 3), matrix_nodes=False))
    op = draw(st.sampled_from(['plot', 'plot', 'density', 'density', 'reduce', 'extend', 'extend', 'adjust', 'evaluate', 'matrix', 'default', 'cleanup']))
    for s in p['states']:       # the states of a label are a mixture: together at most probability one
        s['cum'] = s['cum'] / 4
    return dict(p, op=op, which=draw(st.integers(0, 7)), extra=[draw(st.integers(0, 1)), draw(st.integers(0, 2))], pick=draw(st.integers(0, 20)))


def near(x, y):
    """Nested structures of numbers and strings are the same."""
    if isinstance(x, dict):
        return isinstance(y, dict) and set(x) == set(y) and all(near(x[k], y[k]) for k in x)
    if isinstance(x, np.ndarray) or isinstance(y, np.ndarray):
        return np.shape(x) == np.shape(y) and np.allclose(x, y, atol=1e-9)
    if isinstance(x, (list, tuple)):
        return len(x) == len(y) and all(near(a, b) for a, b in zip(x, y))
    if isinstance(x, (int, float, complex)) or isinstance(x, np.number):
        return abs(x - y) < 1e-9
    return x == y


def check_collections(case, ctx):
    """Operations on collections with arguments left out act as with the documented defaults written out."""
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    C, N, L, w = case['C'], case['N'], case['L'], case['which']
    inits = list(dict.fromkeys(s['init'] for s in case['states']))
    if case['op'] in ('plot', 'density'):
        coll = c.evaluate_circuit(collection_of_states_input=coll)
    if case['op'] == 'plot':
        full = dict(classical_channels=list(range(C)), initial_states=list(inits), histo_output_instead_of_plot=True)
        if w & 1:
            del full['classical_channels']
        if w & 2:
            del full['initial_states']
        got = coll.plot(**full)
        want = coll.plot(classical_channels=list(range(C)), initial_states=list(inits), info_for_bar_plot={}, histo_output_instead_of_plot=True)
        lib.need(near(got, want) and set(got) == set(inits), 'histogram with %s is %s, expected %s' % (sorted(full), got, want))
        if C:       # reading the values of the states: outcomes are the classical values of all channels
            for init in inits:
                lib.need(abs(sum(float(e['probability']) for e in want[init]) - sum(float(s.cumulative_probability) for s in coll if s.initial_state == init)) < 1e-6,
                         'probabilities of %s in the histogram' % init)
                lib.need(all(len(O.values_of(e['output_state'], L, case['left'])) == C for e in want[init]), 'outcomes %s for %d channels' % (want[init], C))
    elif case['op'] == 'density':
        got = [coll.density_matrix(), coll.density_matrix(initial_state=''), coll.density_matrix(decimal_places_for_trace=2)]
        lib.need(set(got[0]) == set(inits) and near(got[0], got[1]) and near(got[0], got[2]), 'density matrices %s' % got)
        for k in inits:
            exact = coll.density_matrix(initial_state=k, decimal_places_for_trace=10)
            lib.need(list(exact) == [k], 'density matrix of %r contains %s' % (k, list(exact)))
            for d in (0, 1, 2, 3, 5):
                r = coll.density_matrix(k, d)[k]
                for f in ('trace', 'trace_dm_squared'):
                    lib.need(abs(r[f] - exact[k][f]) <= 0.5 * 10 ** -d + 1e-8 and abs(r[f] * 10 ** d - round(r[f] * 10 ** d)) < 1e-6,
                             '%s %r with %d decimals, exact %r' % (f, r[f], d, exact[k][f]))
            m = np.array(exact[k]['density_matrix'])
            lib.need(abs(exact[k]['trace'] - abs(np.trace(m))) < 1e-8 and abs(exact[k]['trace_dm_squared'] - abs(np.trace(m @ m))) < 1e-8, 'traces of the density matrix')
    elif case['op'] in ('reduce', 'extend', 'adjust'):
        other = coll.copy()
        if case['op'] == 'reduce':
            o, cl = list(range(N)), list(range(C))
            if w & 1:
                o = [case['pick'] % N, (case['pick'] + 1) % N]
            if w & 2 and C:
                cl = [case['pick'] % C]
            kw = {}
            if w & 1 or w & 4:
                kw['optical_channels_to_keep'] = list(o)
            if (w & 2 and C) or w & 4:
                kw['classical_channels_to_keep'] = list(cl)
            coll.reduce(**kw)
            other.reduce(optical_channels_to_keep=o, classical_channels_to_keep=cl)
            spec = dict(case, N=len(o), C=len(cl))
        elif case['op'] == 'extend':
            a, b = case['extra']
            kw = {}
            if a or w & 1:
                kw['extra_optical_channels'] = a
            if b or w & 2:
                kw['extra_classical_channels'] = b
            coll.extend(**kw)
            other.extend(extra_optical_channels=a, extra_classical_channels=b, statistical_distribution=[1] + [0] * (L - 1))
            spec = dict(case, N=N + a, C=C + b)
        else:
            coll.adjust_length_of_fock_state()
            other.adjust_length_of_fock_state(L)
            spec = case
        x, y = lib.read(coll, spec), lib.read(other, spec)
        lib.need([s.id for s in x] == [s.id for s in y] or len({s.id for s in x}) == len(x), 'identifiers')
        equal(x, y, '%s with arguments left out' % case['op'])
    elif case['op'] == 'evaluate':
        x = lib.read(c.evaluate_circuit(coll), case)
        for kw in (dict(nodes_to_be_evaluated=['all']), dict(nodes_to_be_evaluated=list(range(len(c.node_list))))):
            equal(lib.read(c.evaluate_circuit(collection_of_states_input=lib.collection(c, case, case['states']), **kw), case), x, 'evaluation with %s' % kw)
    elif case['op'] == 'matrix':
        c = lib.circuit(case, [['hwp', 0, 1, 0.3]] + [n for n in case['nodes'] if n[0] in O_ONLY])
        x = c.get_fock_state_matrix()
        for v in ('all', list(range(len(c.node_list)))):
            lib.need(np.allclose(x, c.get_fock_state_matrix(nodes_to_be_evaluated=v), atol=1e-9), 'matrix of the circuit with nodes %s' % (v,))
        lib.need(np.shape(x) == (L ** N, L ** N), 'shape %s of the matrix of the circuit' % (np.shape(x),))
    elif case['op'] == 'default':
        x = lib.read(c.evaluate_circuit(), case)
        y = lib.read(c.evaluate_circuit(collection_of_states_input=fsc.CollectionOfStates(c)), case)
        z = lib.read(c.evaluate_circuit(collection_of_states_input=fsc.CollectionOfStates(fock_state_circuit=c, input_collection_as_a_dict=None)), case)
        equal(x, y, 'evaluation without a collection')
        equal(z, y, 'evaluation of a default collection')
    else:
        # without an initial state the whole collection is cleaned up, with one only that part
        other = coll.copy()
        coll.clean_up()
        for k in inits:
            other.clean_up(initial_state=k)
        equal(lib.read(coll, case), lib.read(other, case), 'clean up')
    ctx.label(case['op'])
    ctx.nt()


O_ONLY = [k for k, (o, cl) in prog.OPT_ARGS.items() if o and not cl and k not in ('cs', 'csd', 'shift', 'shiftd', 'wph')]

SCALE = 3
FACETS = [Facet('nodes', nodes(), check_nodes, 600, 12000), Facet('spectral', spectral(), check_spectral, 240, 4000),
          Facet('circuit', circuits(), check_circuits, 300, 4000), Facet('collections', collections(), check_collections, 300, 8000)]
