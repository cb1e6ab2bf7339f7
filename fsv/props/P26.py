"""Invalid requests raise and leave everything as it was."""
import math
import numpy as np
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet, Violation

RULE = 'a case is a circuit with nodes and states and an invalid request together with the nearest valid one; every case is non-trivial'


def raises(fn, what):
    try:
        fn()
    except Exception:   # noqa: BLE001
        return
    raise Violation('%s is accepted' % what)


def accepts(fn, what):
    try:
        return fn()
    except Exception as exc:   # noqa: BLE001
        raise Violation('%s is refused: %s: %s' % (what, type(exc).__name__, exc))


def state_of(c, case):
    """Everything a later evaluation can observe of the circuit."""
    coll, out = prog.run(case, circuit=c)
    return len(c.node_list), lib.snapshot_free(out)


# the kinds of invalid nodes: name -> (needs, function(circuit, a, b, N, C, k) adding the invalid node, function adding a valid node)
two = lambda name, *args: (lambda c, a, b: getattr(c, name)(a, b, *args))
TWO = {'wave_plate': lambda c, a, b: c.wave_plate(a, b, theta=0.3, phi=0.7), 'half_wave_plate': lambda c, a, b: c.half_wave_plate(a, b, angle=0.3),
       'quarter_wave_plate': lambda c, a, b: c.quarter_wave_plate(a, b, angle=0.3), 'half_wave_plate_225': two('half_wave_plate_225'),
       'half_wave_plate_45': two('half_wave_plate_45'), 'quarter_wave_plate_225': two('quarter_wave_plate_225'),
       'quarter_wave_plate_45': two('quarter_wave_plate_45'), 'mix_50_50': two('mix_50_50'),
       'mix_generic_refl_transm': lambda c, a, b: c.mix_generic_refl_transm(a, b, reflection=0.3, transmission=0.7), 'swap': two('swap'),
       'custom_optical_node': lambda c, a, b: c.custom_optical_node(np.eye(2, dtype=np.cdouble), optical_channels=[a, b]),
       'wave_plate_classical_control': lambda c, a, b: c.wave_plate_classical_control(a, b, 0, 1)}
BAD = ['identical', 'optical range', 'refl', 'matrix', 'beamsplitter', 'classical control', 'operator control', 'measure length', 'measure optical', 'measure classical',
       'set length', 'set range', 'shift length', 'shift range', 'cshift same', 'cshift length', 'cshift range', 'coupling same', 'coupling range']


@st.composite
def nodes(draw):
    L, N = draw(G.dims(100, Lmax=4, Nmax=4))
    C = draw(st.integers(2, 4))
    return dict(L=L, N=N, C=C, **draw(G.flags), bad=draw(st.sampled_from(BAD)), which=draw(st.sampled_from(sorted(TWO))),
                ch=draw(st.permutations(range(N))), cc=draw(st.permutations(range(C))), over=draw(st.integers(0, 2)), k=draw(st.integers(0, 30)),
                nodes=draw(st.lists(G.any_node(L, N, C, measure=True), min_size=0, max_size=3)), states=[draw(G.state(L, N, C))])


def draw_pairs(case):
    p = list(case['ch'])
    return [(p[i % len(p)], p[(i + 1) % len(p)]) for i in range(case['k'] % 3)]


def attempts(case):
    """A list of (description, invalid call) and a list of valid calls for a case."""
    N, C, bad, ch, cc, k = case['N'], case['C'], case['bad'], case['ch'], case['cc'], case['k']
    a, b = ch[0], ch[1]
    o = N + case['over']          # a channel that is not there
    oc = C + case['over']
    neg = -1 - case['over']
    m = list(range(min(N, C)))[:1 + k % 3]
    if bad == 'identical':
        f = TWO[case['which']]
        return [('%s on channels %s' % (case['which'], (a, a)), lambda c: f(c, a, a))], [lambda c: f(c, a, b)]
    if bad == 'optical range':
        f = TWO[case['which']]
        x, y = (a, o) if k % 2 else (o, a)
        return [('%s on channels %s' % (case['which'], (x, y)), lambda c: f(c, x, y))], [lambda c: f(c, a, N - 1 if a != N - 1 else 0)]
    if bad == 'refl':
        r, t = [(0.5, 0.6), (0.2, 0.7), (1.2, -0.2), (-0.5, 1.5), (0.5, 0.501)][k % 5]
        return [('mixing with reflection %s and transmission %s' % (r, t), lambda c: c.mix_generic_refl_transm(a, b, reflection=r, transmission=t))], \
            [lambda c: c.mix_generic_refl_transm(a, b, reflection=1.0, transmission=0.0)]
    if bad == 'matrix':
        M = [np.eye(3), np.eye(1), np.ones((2, 3)), np.ones((3, 2)), np.ones((1, 2))][k % 5].astype(np.cdouble)
        return [('a custom matrix of shape %s' % (M.shape,), lambda c: c.custom_optical_node(M, optical_channels=[a, b]))], \
            [lambda c: c.custom_optical_node(np.eye(2, dtype=np.cdouble), optical_channels=[a, b])]
    if bad == 'beamsplitter':
        name = ['polarizing_beamsplitter', 'non_polarizing_50_50_beamsplitter', 'non_polarizing_beamsplitter'][k % 3]
        kw = dict(reflection=0.4, transmission=0.6) if k % 3 == 2 else {}
        if N < 4:
            return [('%s in a circuit of %d channels' % (name, N), lambda c: getattr(c, name)(input_channels_a=(0, 1), input_channels_b=(1, 0), **kw))], []
        # a wrong channel in one of the two pairs that are mixed; a polarizing beam splitter only swaps the second pair
        x, y = list(ch[:2]), list(ch[2:4])
        at = 1 if k % 3 == 0 or k % 2 else 0
        if case['over'] == 0:
            y[at] = x[at]
        else:
            (x if case['over'] == 1 else y)[at] = o
        f = lambda x, y: (lambda c: getattr(c, name)(input_channels_a=tuple(x), input_channels_b=tuple(y), **kw))
        return [('%s with channels %s and %s' % (name, x, y), f(x, y))], [f(ch[:2], ch[2:4])]
    if bad == 'classical control':
        calls = [lambda c: c.wave_plate_classical_control(a, b, cc[0], oc), lambda c: c.wave_plate_classical_control(a, b, oc, cc[0]),
                 lambda c: c.wave_plate_classical_control(a, o, cc[0], cc[1]), lambda c: c.phase_shift_single_channel_classical_control(a, oc),
                 lambda c: c.phase_shift_single_channel_classical_control(o, cc[0])]
        good = [lambda c: c.wave_plate_classical_control(a, b, C - 1, cc[0]), lambda c: c.phase_shift_single_channel_classical_control(N - 1, C - 1)]
        return [('classical control number %d with a channel that is not there' % (k % 5), calls[k % 5])], good
    if bad == 'operator control':
        calls = [lambda c: c.wave_plate_from_hamiltonian_classical_control(a, b, cc[0], oc), lambda c: c.wave_plate_from_hamiltonian_classical_control(a, b, oc, cc[0]),
                 lambda c: c.wave_plate_from_hamiltonian_classical_control(a, o, cc[0], cc[1])]
        return [('operator control number %d with a channel that is not there' % (k % 3), calls[k % 3])], \
            [lambda c: c.wave_plate_from_hamiltonian_classical_control(a, b, C - 1, cc[0])]
    M = lambda x, y: (lambda c: c.measure_optical_to_classical(optical_channels_to_be_measured=list(x), classical_channels_to_be_written=list(y)))
    if bad.startswith('measure'):
        x, y = list(ch[:len(m)]), list(cc[:len(m)])
        bx, by = list(x), list(y)
        if bad == 'measure length':
            bx, by = (x, y[:-1]) if k % 2 else (x[:-1], y)
        elif bad == 'measure optical':
            bx[k % len(bx)] = o if k % 3 else neg
        else:
            by[k % len(by)] = oc if k % 3 else neg
        return [('measuring %s to %s' % (bx, by), M(bx, by))], [M(x, y)]
    S = lambda v, x: (lambda c: c.set_classical_channels(list_of_values_for_classical_channels=list(v), list_of_classical_channel_numbers=list(x)))
    if bad.startswith('set'):
        x = list(cc[:1 + k % C])
        v = [0.5] * len(x)
        if bad == 'set length':
            bv, bx = (v + [1], x) if k % 2 else (v, x + [x[0]])
        else:
            bv, bx = v, list(x)
            bx[k % len(bx)] = oc if k % 3 else neg
        return [('setting channels %s to %s' % (bx, bv), S(bv, bx))], [S(v, x)]
    names = ['shift', 'shift_direct'] if bad.startswith('shift') else ['c_shift', 'c_shift_direct']
    if bad.startswith('shift'):
        x = list(ch[:1 + k % min(N, 4)])
        v = [1] * len(x)
        name = names[(k // 4) % 2]
        if bad == 'shift length':
            bx, bv = (x, v + [1]) if k % 2 else (x, v[:-1])
        else:
            bx, bv = list(x), v
            bx[k % len(x)] = o if k % 3 else neg
        f = lambda x, v: (lambda c: getattr(c, name)(target_channels=list(x), shift_per_channel=list(v)))
        return [('%s of channels %s by %s' % (name, bx, bv), f(bx, bv))], [f(x, v)]
    name = names[k % 2] if bad.startswith('cshift') else 'channel_coupling'
    kw = {} if bad.startswith('cshift') else dict(coupling_strength=1)
    more = draw_pairs(case)          # further pairs, which are valid, before and after the one that is not
    x, y = [p[0] for p in more] + [a], [p[1] for p in more] + [b]
    bx, by = list(x), list(y)
    at = (k // 3) % len(x)
    if bad.endswith('same'):
        by[at] = bx[at]
    elif bad.endswith('length'):
        by = by + [a] if k % 2 else by[:-1] if len(by) > 1 else by + [a]
    else:
        (bx if k % 2 else by)[at] = o if k % 3 else neg
    f = lambda x, y: (lambda c: getattr(c, name)(control_channels=list(x), target_channels=list(y), **kw))
    return [('%s with control %s and target %s' % (name, bx, by), f(bx, by))], [f(x, y)]


def check_nodes(case, ctx):
    """Adding a node with invalid channels, lengths, matrices or values raises, adds no node and leaves the results of the circuit as they were."""
    c = lib.circuit(case)
    bad, good = attempts(case)
    before = state_of(c, case)
    for text, call in bad:
        raises(lambda: call(c), text)
        after = state_of(c, case)
        lib.need(after[0] == before[0], '%s raises but leaves a node in the circuit' % text)
        lib.need(after[1] == before[1], '%s raises but changes the results of the circuit' % text)
    n = len(c.node_list)
    for call in good:
        accepts(lambda: call(c), 'a valid node (%s)' % case['bad'])
        lib.need(len(c.node_list) > n, 'a valid node (%s) is not added' % case['bad'])
        n = len(c.node_list)
    if good:
        accepts(lambda: prog.run(case, circuit=c), 'evaluation with a valid node (%s)' % case['bad'])
    ctx.label(case['bad'])
    ctx.nt(bool(bad))


@st.composite
def selections(draw):
    p = draw(prog.program(max_size=80, nodes=(1, 5), Cmin=1, matrix_nodes=False))
    n = sum(len(x) for x in lib.node_spans(p))
    sel = draw(st.lists(st.integers(0, n - 1), min_size=0, max_size=4))
    return dict(p, sel=sel, at=draw(st.integers(0, len(sel))), out=draw(st.sampled_from([n, n + 1, -1, -n, -n - 1, 1000])))


def check_selection(case, ctx):
    """A selection of nodes with an index that is not in the circuit raises before anything is done; the input stays as it was."""
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    snap = lib.snapshot(coll)
    bad = case['sel'][:case['at']] + [case['out']] + case['sel'][case['at']:]
    raises(lambda: c.evaluate_circuit(collection_of_states_input=coll, nodes_to_be_evaluated=list(bad)), 'evaluating nodes %s of %d' % (bad, len(c.node_list)))
    lib.need(lib.snapshot(coll) == snap, 'the collection changed in a refused evaluation')
    accepts(lambda: c.evaluate_circuit(collection_of_states_input=coll, nodes_to_be_evaluated=list(case['sel'])), 'evaluating nodes %s' % case['sel'])
    ctx.label('first' if case['at'] == 0 else 'later', 'negative' if case['out'] < 0 else 'large')
    ctx.nt()


STATE = ['probability', 'name', 'list name', 'list amplitude', 'component keys', 'component type', 'classical length', 'classical type', 'history type', 'aux type',
         'dict probability', 'dict classical', 'dict component', 'collection dict', 'collection state', 'reduce optical', 'reduce classical', 'extend', 'extend distribution', 'length']


@st.composite
def collections(draw):
    L, N = draw(G.dims(100, Lmax=4, Nmax=4))
    C = draw(st.integers(1, 3))
    return dict(L=L, N=N, C=C, left=draw(st.booleans()), bad=draw(st.sampled_from(STATE)), k=draw(st.integers(0, 40)),
                states=[draw(G.state(L, N, C)) for _ in range(draw(st.integers(1, 3)))], values=draw(G.values(L, N)))


def check_collections(case, ctx):
    """Invalid values for states and invalid operations on collections raise and leave the state or collection as it was; collections with an invalid state are not valid."""
    L, N, C, bad, k, left = case['L'], case['N'], case['C'], case['bad'], case['k'], case['left']
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    snap = lib.snapshot(coll)
    s = next(iter(coll))
    name = O.name_of(case['values'], L, left)
    wrong = [name + '0', name[1:], 'x' * len(name), '9' * len(name) if L < 10 else 'a' + name[1:], ''][k % 5]
    one = {'amplitude': np.cdouble(1), 'probability': 1.0}

    def put(attr, value):
        return lambda: setattr(s, attr, value)
    good = None
    if bad == 'probability':
        v = [1.1, -0.1, 2, -5, 1.01, -0.001, float('nan'), float('inf')][k % 8]
        tests, good = [('probability %s' % v, put('cumulative_probability', v))], put('cumulative_probability', [0, 1, 0.5][k % 3])
    elif bad == 'name':
        tests, good = [('component %r' % wrong, put('optical_components', {name: dict(one), wrong: dict(one)}))], put('optical_components', {name: dict(one)})
    elif bad == 'list name':
        tests, good = [('component %r in a list' % wrong, put('optical_components', [(name, 0.5), (wrong, 0.5)]))], put('optical_components', [(name, 1.0)])
    elif bad == 'list amplitude':
        tests, good = [('amplitude given as text', put('optical_components', [(name, 'one')]))], put('optical_components', [(name, 1j)])
    elif bad == 'component keys':
        tests = [('a component without %s' % x, put('optical_components', {name: {y: 1.0}})) for x, y in [('amplitude', 'probability'), ('probability', 'amplitude')]]
    elif bad == 'component type':
        tests = [('components given as %s' % type(v).__name__, put('optical_components', v)) for v in [name, 3, None, (name, 1.0)][k % 4:k % 4 + 1]]
    elif bad == 'classical length':
        v = [0] * [C + 1, C - 1, 0, C + 5][k % 4]
        tests, good = [('%d classical values for %d channels' % (len(v), C), put('classical_channel_values', v))], put('classical_channel_values', [2.5] * C)
    elif bad == 'classical type':
        v = [(0,) * C, None, 'a' * C, 1][k % 4]
        tests = [('classical values %r' % (v,), put('classical_channel_values', v))]
    elif bad == 'history type':
        v = [{'measurement_results': [0] * C, 'probability': 1}, None, 'x', 3][k % 4]
        tests, good = [('history %r' % (v,), put('measurement_results', v))], put('measurement_results', [])
    elif bad == 'aux type':
        v = [[1], None, 'x', 3][k % 4]
        tests, good = [('auxiliary information %r' % (v,), put('auxiliary_information', v))], put('auxiliary_information', {})
    elif bad.startswith('dict'):
        d = {'initial_state': name, 'cumulative_probability': 1.0, 'optical_components': {name: dict(one)}, 'classical_channel_values': [0] * C, 'measurement_results': []}
        b = dict(d)
        if bad == 'dict probability':
            b['cumulative_probability'] = [1.5, -0.5, 'x'][k % 3]
        elif bad == 'dict classical':
            b['classical_channel_values'] = [0] * (C + 1 - 2 * (k % 2))
        else:
            b['optical_components'] = [{name: {'amplitude': np.cdouble(1), 'probability': 1.5}}, {name: {'amplitude': np.cdouble(1)}}, {name: 1.0}, [(name, 1.0)], {3: dict(one)}][k % 5]
        tests, good = [('a state made from %s' % b, lambda: fsc.State(coll, b))], lambda: fsc.State(coll, d)
    elif bad == 'collection dict':
        b = [{1: s}, {'a': 3}, {'a': None}, {'a': 'state'}, [s], {'a': s, 2: s}][k % 6]
        tests = [('a collection made from %s' % (repr(b)[:40],), lambda: fsc.CollectionOfStates(c, b))]
        good = lambda: fsc.CollectionOfStates(c, {'a': s})
    elif bad == 'collection state':
        lib.need(bool(coll) is True, 'a valid collection is reported as invalid')
        t = s.copy()
        if k % 3 == 0:
            t.classical_channel_values.append(1)
        elif k % 3 == 1:
            t.optical_components[name] = {'amplitude': np.cdouble(2), 'probability': 4.0}
        else:
            t.state['cumulative_probability'] = 1.5
        lib.need(not bool(t), 'an invalid state is reported as valid')
        coll2 = coll.copy()
        if k % 2:
            items = [(i, x) for i, x in coll2.items()]
            coll2.clear()
            coll2.add_state(t, identifier='bad')
            for i, x in items:
                coll2.add_state(x, identifier=i)
        else:
            coll2.add_state(t, identifier='bad')
        lib.need(not bool(coll2), 'a collection with an invalid state is reported as valid')
        tests, good = [('a collection with an invalid state', lambda: fsc.CollectionOfStates(c, {'a': s, 'b': t}))], None
    elif bad == 'reduce optical':
        ch = [[0, N], [0, 1, -1], [N, N + 1], [-1, 0]][k % 4]
        tests, good = [('reduce to %s of %d' % (ch, N), lambda: coll.reduce(optical_channels_to_keep=ch))], lambda: coll.copy().reduce(optical_channels_to_keep=[N - 1, 0])
    elif bad == 'reduce classical':
        ch = [[C], [-1], [0, C + 1]][k % 3]
        tests, good = [('reduce to classical %s of %d' % (ch, C), lambda: coll.reduce(classical_channels_to_keep=ch))], lambda: coll.copy().reduce(classical_channels_to_keep=[C - 1])
    elif bad == 'extend':
        kw = [dict(extra_optical_channels=-1), dict(extra_classical_channels=-2), dict(extra_optical_channels=1, extra_classical_channels=-1),
              dict(extra_optical_channels=-1, extra_classical_channels=2)][k % 4]
        tests, good = [('extend by %s' % kw, lambda: coll.extend(**kw))], lambda: coll.copy().extend(extra_optical_channels=1, extra_classical_channels=k % 2)
    elif bad == 'extend distribution':
        n = L + 1 - 2 * (k % 2)
        tests = [('extend with a distribution of %d values' % n, lambda: coll.extend(extra_optical_channels=1, statistical_distribution=[1.0] + [0.0] * (n - 1)))]
        good = lambda: coll.copy().extend(extra_optical_channels=1, statistical_distribution=[1.0] + [0.0] * (L - 1))
    else:
        tests, good = [('length %d' % -(1 + k % 3), lambda: coll.adjust_length_of_fock_state(-(1 + k % 3)))], lambda: coll.copy().adjust_length_of_fock_state(L + 1)
    for text, call in tests:
        raises(call, text)
        lib.need(lib.snapshot(coll) == snap, '%s raises but changes the collection\n before %s\n after  %s' % (text, snap, lib.snapshot(coll)))
        r = lib.read(coll, dict(case, full=False))
        lib.need(len(r) == len(case['states']), 'states are missing')
    # the collection still evaluates as before
    c2 = lib.circuit(case, [['wp', 0, 1, 0.3, 0.9]])
    want = prog.expected(dict(case), nodes=[['wp', 0, 1, 0.3, 0.9]])
    lib.compare(lib.read(c2.evaluate_circuit(collection_of_states_input=coll), case), want, what='evaluation after %s' % bad)
    if good:
        accepts(good, 'a valid value (%s)' % bad)
    ctx.label(bad)
    ctx.nt()


@st.composite
def dimensions(draw):
    return dict(L=draw(st.integers(-1, 3)), N=draw(st.integers(-1, 4)), C=draw(st.integers(0, 2)), kind=draw(st.sampled_from(['node type', 'dims', 'dims'])))


def check_dimensions(case, ctx):
    """Circuits need two channels and a length of at least one; nodes of an unknown type are refused."""
    L, N, C = case['L'], case['N'], case['C']
    make = lambda: fsc.FockStateCircuit(length_of_fock_state=L, no_of_optical_channels=N, no_of_classical_channels=C)
    if L < 1 or N < 2:
        raises(make, 'a circuit of length %d with %d channels' % (L, N))
        ctx.nt()
        return
    c = accepts(make, 'a circuit of length %d with %d channels' % (L, N))
    lib.need(len(list(c.basis().keys())) == L ** N, 'basis of a circuit of length %d with %d channels' % (L, N))
    if case['kind'] == 'node type':
        raises(lambda: c.custom_optical_node(np.eye(2, dtype=np.cdouble), optical_channels=[0, 1], node_type='unknown'), 'a node of type unknown')
        raises(lambda: c.custom_fock_state_node(np.eye(L ** N, dtype=np.cdouble), node_type=''), 'a node of type ""')
        lib.need(len(c.node_list) == 0, 'a refused node is in the circuit')
        ctx.nt()
    ctx.label(case['kind'])


SCALE = 2.5
FACETS = [Facet('nodes', nodes(), check_nodes, 960, 15000), Facet('selection', selections(), check_selection, 160, 4000),
          Facet('collections', collections(), check_collections, 800, 12000), Facet('dimensions', dimensions(), check_dimensions, 80, 300)]
