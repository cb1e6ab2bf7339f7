"""Printing and drawing show the circuit and the states, and change nothing."""
import re
import matplotlib.pyplot as plt
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet, Violation

RULE = ('a case is a circuit or a collection that is printed or drawn; it is non-trivial when a drawing has at least three nodes of which two share '
        'a channel, or a text shows at least two components')
KINDS = ['opt', 'setc', 'cfun', 'wpc', 'psc', 'meas', 'shiftd', 'csd', 'shift', 'cs']
SPECIAL = {'td': ([0], []), 'qd': ([0], []), 'spw': ([0], []), 'tdc': ([0], [1]), 'qdc': ([0], [1]), 'pr': ([0], []), 'ns': ([0], []), 'bell': ([0], []),
           'wph': ([0, 1], []), 'wphc': ([0, 1], [2, 3]), 'coup': ([0, 1], []), 'hop': ([0], []), 'genall': ([0], [1])}
NAMES = ['alice', 'bob', 'charlie']


# -------------------------------------------------------------------------------------------------------------------- texts

@st.composite
def texts(draw):
    p = draw(prog.program(max_size=120, nodes=(1, 4), Cmin=0, states=(1, 3)))
    if p['C'] and draw(st.integers(0, 7)) == 0:       # a long measurement history
        p['nodes'] = p['nodes'][:2] + [['meas', [draw(st.integers(0, p['N'] - 1))], [draw(st.integers(0, p['C'] - 1))]] for _ in range(draw(st.integers(5, 12)))]
    return dict(p, last=draw(st.booleans()), where=draw(st.sampled_from(['set before', 'set after', 'default'])), name=draw(st.sampled_from([None, 'my circuit', 'x'])))


def numbers(text):
    return [float(x) for x in re.findall(r"-?\d+\.\d+", text)]


def same(xs, ys, what):
    lib.need(len(xs) == len(ys) and all(abs(x - y) <= 0.00501 for x, y in zip(xs, ys)), '%s: printed %s, expected %s' % (what, xs, ys))


def check_state_text(text, s, last, what):
    """The text of a state: label, probability, classical values, history and components with two decimals."""
    lib.need(repr(s.initial_state) in text.split('\n')[0], '%s: initial state is not shown' % what)
    head = re.search(r'Cumulative probability: *(\S+)', text)
    lib.need(head, '%s: no probability' % what)
    same([float(head.group(1))], [float(s.cumulative_probability)], what + ': probability')
    cl = re.search(r'Classical values: *(.*)', text)
    lib.need(bool(cl) == (len(s.classical_channel_values) > 0), '%s: classical values' % what)
    if cl:
        same(numbers(cl.group(1)), [float(x) for x in s.classical_channel_values], what + ': classical values')
    hist = s.measurement_results
    part = re.search(r'[Mm]easurement results?.*?(?=Optical components)', text, re.S)
    lib.need(bool(part) == (len(hist) > 0), '%s: measurement history' % what)
    if part:
        lines = [x for x in part.group(0).split('\n') if 'Probability' in x]
        want = hist[-1:] if last else hist[::-1]
        lib.need(len(lines) == len(want), '%s: %d results are shown, expected %d' % (what, len(lines), len(want)))
        for line, h in zip(lines, want):
            same(numbers(line), [float(x) for x in h['measurement_results']] + [float(h['probability'])], what + ': history')
    comps = re.findall(r"'(\w+)' *Amplitude: *\((-?[\d.]+) *([+-]) *(-?[\d.]+)i\), *Probability: *([\d.]+)", text[text.index('Optical components'):])
    lib.need([c[0] for c in comps] == list(s.optical_components), '%s: components %s, expected %s' % (what, [c[0] for c in comps], list(s.optical_components)))
    for name, re_, sign, im, p in comps:
        ap = s.optical_components[name]
        a = complex(ap['amplitude'])
        same([float(re_), float(im) * (1 if sign == '+' else -1), float(p)], [a.real, a.imag, float(ap['probability'])], what + ': component ' + name)


def check_texts(case, ctx):
    """Texts of circuits, collections and states show their contents; printing changes nothing."""
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    if case['where'] == 'set before':
        coll.print_only_last_measurement = case['last']
    out = c.evaluate_circuit(collection_of_states_input=coll)
    last = case['last']
    if case['where'] == 'set after':
        out.print_only_last_measurement = case['last']
    elif case['where'] == 'default':
        last = None
    snap, n = lib.snapshot(out), len(c.node_list)
    t1 = str(out)
    lib.need(re.search(r'Number of states in collection: *%d\b' % len(out), t1), 'number of states is not shown')
    if case['where'] == 'set before':
        last = out.print_only_last_measurement
    elif last is None:
        last = fsc.CollectionOfStates(c).print_only_last_measurement
    parts = re.split(r"^Identifier: ", t1, flags=re.M)
    lib.need(len(parts) == len(out) + 1, '%d states are shown, expected %d' % (len(parts) - 1, len(out)))
    for part, (ident, s) in zip(parts[1:], out.items()):
        first, rest = part.split('\n', 1)
        lib.need(first == repr(ident), 'identifier %s, expected %r' % (first, ident))
        check_state_text(rest, s, last, 'state %r in the collection' % ident)
        check_state_text(str(s), s, last, 'state %r' % ident)
        po = s.print_optical_components()
        found = re.findall(r"'(\w+)'[^(]*\((-?[\d.]+) *([+-]) *(-?[\d.]+)i\)", po)
        lib.need([f[0] for f in found] == list(s.optical_components), 'print_optical_components shows %s' % po)
        for name, re_, sign, im in found:
            a = complex(s.optical_components[name]['amplitude'])
            same([float(re_), float(im) * (1 if sign == '+' else -1)], [a.real, a.imag], 'print_optical_components')
    lib.need(str(out) == t1, 'printing twice gives different texts')
    t = str(c)
    lib.need(t == str(c) and str(case['name']) in t, 'text of the circuit')
    lib.need([int(x) for x in re.findall(r'^(?!.*name).*: *(\d+)$', t, re.M)] == [case['N'], case['C'], case['L']], 'text of the circuit: %r' % t)
    comp = fsc.CompoundFockStateCircuit([c, c], compound_circuit_name='both')
    tc = str(comp)
    lib.need('both' in tc and tc.count(t) == 2, 'text of a compound circuit: %r' % tc)
    lib.need(len(c.conventions()) > 100 and repr(out), 'conventions')
    lib.need(lib.snapshot(out) == snap and len(c.node_list) == n, 'printing changed the collection or the circuit')
    ctx.label('last' if last else 'all', 'history%d' % max([len(s.measurement_results) for s in out] or [0]))
    ctx.nt(any(len(s.optical_components) > 1 for s in out))


# -------------------------------------------------------------------------------------------------------------------- figures

def flat(x):
    return [z for y in x for z in flat(y)] if isinstance(x, list) else [x]


def channels_of(node):
    """Optical and classical channels of a node of the case."""
    op, *p = node
    if op == 'pbs':         # drawn on the two channels it swaps
        return sorted([p[0][1], p[1][1]]), []
    o, c = prog.OPT_ARGS.get(op) or SPECIAL[op]
    return sorted({z for k in o for z in flat(p[k])}), sorted({z for k in c for z in flat(p[k])})


def identity(coll, parameters):
    return coll


def add(c, node, spec):
    op, *p = node
    if op in ('td', 'qd', 'spw', 'tdc', 'qdc'):
        {'td': lambda: c.time_delay_full(list(p[0]), p[1]), 'qd': lambda: c.time_delay(list(p[0]), p[1]), 'spw': lambda: c.set_pulse_width(list(p[0]), 1.0),
         'tdc': lambda: c.time_delay_classical_control_full(list(p[0]), p[1]), 'qdc': lambda: c.time_delay_classical_control(list(p[0]), p[1])}[op]()
    elif op in ('pr', 'ns'):
        boxes = [{'channels_Ah_Av_Bh_Bv': list(p[0]), 'quantumness_indicator': 1}]
        (c.popescu_rohrlich_correlation_gate if op == 'pr' else c.create_no_signalling_boxes)(boxes)
    elif op == 'coup':
        c.channel_coupling(list(p[0]), list(p[1]), 0.5)
    elif op == 'hop':
        c.hamiltonian_operator_gate(list(p[0]), [fsc.Hamiltonian([('+-', 0.3), ('-+', 0.3)], [0, 1])])
    elif op == 'genall':
        c.generic_function_on_collection(identity, affected_optical_channels=list(p[0]), affected_classical_channels=list(p[1]))
    else:
        lib.add(c, node, spec)


@st.composite
def special(draw, N, C):
    ops = ['td', 'qd', 'spw', 'wph', 'coup', 'hop', 'genall'] + (['tdc', 'qdc', 'wphc'] if C else []) + (['pr', 'ns'] if N >= 4 else [])
    op = draw(st.sampled_from(ops))
    a, b = draw(G.pair(N))
    if op in ('td', 'qd'):
        return [op, draw(G.subset(N, 1, 3)), 0.5]
    if op in ('tdc', 'qdc'):
        return [op, draw(G.subset(N, 1, 3)), draw(st.integers(0, C - 1))]
    if op == 'spw':
        return [op, draw(G.subset(N, 1, 3))]
    if op == 'wph':
        return [op, a, b, 0.3, 0.4]
    if op == 'wphc':
        return [op, a, b, draw(st.integers(0, C - 1)), draw(st.integers(0, C - 1))]
    if op == 'coup':
        return [op, [a], [b]]
    if op == 'hop':
        return [op, [a, b]]
    if op == 'genall':
        return [op, draw(G.subset(N, 1)), draw(G.subset(C, 0))]
    return [op, list(draw(st.permutations(range(N)))[:4])]


def parts(case, k):
    """Circuit k of the case and for each node the positions it has in the circuit."""
    spec = dict(case['circuits'][k], L=2)
    c, spans, n = lib.circuit(spec, []), [], 0
    for node in spec['nodes']:
        add(c, node, spec)
        spans.append(list(range(n, len(c.node_list))))
        n = len(c.node_list)
    return c, spans, spec


def build(case, k):
    """Circuit k of the case with the label 'n<circuit>.<node>.<part>' on every entry of its node list, and the units the drawing should show."""
    c, spans, spec = parts(case, k)
    units = []
    for i, (node, span) in enumerate(zip(spec['nodes'], spans)):
        for j in span:
            c.node_list[j]['node_info']['label'] = 'n%d.%d' % (k, i)
        o, cl = channels_of(node)
        # consecutive parts of combined gates of the same kind are drawn in one box
        if len(span) > 1 and units and units[-1]['kind'] == node[0]:
            units[-1]['o'] = sorted(set(units[-1]['o']) | set(o))
            units[-1]['n'] += len(span)
        else:
            units.append(dict(label='n%d.%d' % (k, i), o=o, c=cl, kind=node[0] if len(span) > 1 else None, n=len(span)))
    return c, units


def figures():
    out = []
    for num in plt.get_fignums():
        out.append(plt.figure(num))
    return out


def decode(fig, nopt):
    """The pages of a figure: titles, page labels, texts and for every box label, x, channels."""
    rows = set()
    for ax in fig.axes:
        for ln in ax.lines:
            xs, ys = list(ln.get_xdata()), list(ln.get_ydata())
            if len(xs) == 2 and ys[0] == ys[1] and xs[0] != xs[1] and ln.get_alpha() != 0:
                rows.add(round(float(ys[0]), 6))
    rows = sorted(rows, reverse=True)
    pages = []
    for ax in fig.axes:
        texts = [(t.get_text(), float(t.xy[0]), float(t.xy[1])) for t in ax.texts]
        boxes, points = [], []
        for ln in ax.lines:
            xs, ys = [float(x) for x in ln.get_xdata()], [float(y) for y in ln.get_ydata()]
            if len(xs) == 5:
                boxes.append((min(xs), max(xs), min(ys), max(ys)))
            elif len(xs) == 1 and str(ln.get_marker()) not in ('None', 'none', ''):
                points.append((xs[0], round(ys[0], 6)))
        nodes = []
        for text, x, y in texts:
            if re.match(r'n\d+\.\d+$', text):
                # the box below the label (for combined gates the label is above the first of them, next to the side of the box)
                near = sorted((abs(y - b[3]), b) for b in boxes if abs(b[0] - x) < 1e-6 and b[2] < y < b[3] + 1)
                lib.need(near, 'label %s is not at a box' % text)
                b = near[0][1]
                ch = sorted({rows.index(py) for px, py in points if b[0] < px < b[1] and b[2] < py < b[3] and py in rows})
                xc = (b[0] + b[1]) / 2
                nodes.append((text, xc, [r for r in ch if r < nopt], [r - nopt for r in ch if r >= nopt], b))
        # lines from a node to the bottom, to another station
        down = sorted({(round(float(ln.get_xdata()[0]), 6), rows.index(round(float(ln.get_ydata()[1]), 6))) for ln in ax.lines
                       if len(ln.get_xdata()) == 2 and ln.get_xdata()[0] == ln.get_xdata()[1] and ln.get_ydata()[0] == 0 and round(float(ln.get_ydata()[1]), 6) in rows})
        pages.append(dict(title=ax.get_title(), texts=[t[0] for t in texts], at=texts, nodes=nodes, down=down))
    return pages, rows


def check_figure(fig, units, nopt, ncl, what, joined=()):
    """Every unit is shown once, with its channels, in program order where units share a channel."""
    pages, rows = decode(fig, nopt)
    lib.need(len(rows) == nopt + ncl, '%s: %d channel lines, expected %d' % (what, len(rows), nopt + ncl))
    shown = {}
    for k, p in enumerate(pages):
        lib.need('Page %d' % (k + 1) in p['texts'], '%s: page number %d is not shown' % (what, k + 1))
        for label, x, o, c, b in p['nodes']:
            lib.need(label not in shown, '%s: node %s is drawn twice' % (what, label))
            shown[label] = (k, x, o, c)
    want = [u['label'] for u in units]
    lib.need(sorted(shown) == sorted(want), '%s: nodes shown %s, expected %s' % (what, sorted(shown), sorted(want)))
    for u in units:
        lib.need(shown[u['label']][2] == u['o'] and shown[u['label']][3] == u['c'], '%s: node %s is drawn on optical %s classical %s, expected %s %s' % (
            what, u['label'], shown[u['label']][2], shown[u['label']][3], u['o'], u['c']))
    for i, u in enumerate(units):
        for v in units[:i]:
            if set(u['o']) & set(v['o']) or set(u['c']) & set(v['c']):
                lib.need(shown[v['label']][:2] < shown[u['label']][:2], '%s: node %s is not drawn before %s, they share a channel' % (what, v['label'], u['label']))
    # boxes on a page do not overlap
    for p in pages:
        for i, (l1, _, _, _, a) in enumerate(p['nodes']):
            for l2, _, _, _, b in p['nodes'][:i]:
                lib.need(min(a[1], b[1]) <= max(a[0], b[0]) or min(a[3], b[3]) <= max(a[2], b[2]), '%s: nodes %s and %s overlap' % (what, l1, l2))
    return pages


@st.composite
def one_circuit(draw, left, Cmin=0, most=14, dims=None):
    N, C = dims or (draw(st.integers(2, 6)), draw(st.integers(Cmin, 4)))
    matrix = N <= 5
    node = G.any_node(2, N, C, matrix_nodes=matrix, kinds=KINDS if C else [k for k in KINDS if k in ('opt', 'shift', 'shiftd', 'csd', 'cs')])
    if draw(st.integers(0, 2)) == 0:
        node = st.one_of(node, node, special(N, C))
    return dict(N=N, C=C, left=left, full=False, nodes=draw(st.lists(node, min_size=1, max_size=most)), name=draw(st.sampled_from(['first', 'second one', 'c'])))


@st.composite
def drawings(draw):
    left = draw(st.booleans())
    n = draw(st.sampled_from([1, 1, 1, 2, 3]))
    circuits = [draw(one_circuit(left, most=16 if n == 1 else 7)) for _ in range(n)]
    for k, c in enumerate(circuits):
        c['name'] += str(k)
    return dict(circuits=circuits, line=draw(st.sampled_from([None, None, 5, 8])), title=draw(st.sampled_from([None, 'My title'])),
                labels=draw(st.booleans()), cut=draw(st.sampled_from([None, None, 1, 4, 20])))


def settings_of(case):
    s = {}
    if case.get('line'):
        s['number_of_nodes_on_a_line'] = case['line']
    if case.get('title'):
        s['compound_circuit_title'] = case['title']
    if case.get('labels'):
        s['channel_labels_optical'] = ['ol%d' % k for k in range(8)]
        s['channel_labels_classical'] = ['cl%d' % k for k in range(8)]
    if case.get('cut') and case.get('labels'):
        s['channel_label_string_max_length'] = case['cut']
        s['channel_labels_optical'] = ['%doptical channel for input' % k for k in range(8)]
        s['channel_labels_classical'] = ['%dclassical channel for output' % (7 - k) for k in range(8)]
    return s


def domain(units, case):
    """A row of combined gates that is longer than a line cannot be drawn."""
    return all(u['n'] // 2 <= (case.get('line') or 10) - 1 for u in units)


def observe(c, spec, N):
    """The result of a fixed evaluation, to see that drawing does not change the circuit."""
    coll = fsc.CollectionOfStates(c)
    if N > 4 or any(n[0] in SPECIAL for n in spec['nodes']):
        return len(c.node_list)
    return lib.snapshot_free(c.evaluate_circuit(collection_of_states_input=coll))


def check_drawing(case, ctx):
    """A drawing of a circuit or chain of circuits shows each node once, on its channels, in the order of evaluation; the circuit is unchanged."""
    built = [build(case, k) for k in range(len(case['circuits']))]
    units = [u for _, us in built for u in us]
    nopt, ncl = max(c['N'] for c in case['circuits']), max(c['C'] for c in case['circuits'])
    first = built[0][0]
    if not domain(units, case):
        return
    before = [observe(c, s, s['N']) for (c, _), s in zip(built, case['circuits'])]
    texts = [str(c) for c, _ in built]
    s = settings_of(case)
    kw = dict(settings_for_drawing_circuit=s) if s else {}
    plt.close('all')
    try:
        if len(built) == 1:
            first.draw(**kw)
        else:
            comp = fsc.CompoundFockStateCircuit([c for c, _ in built], compound_circuit_name='chain')
            comp.draw(**kw)
        figs = figures()
        lib.need(len(figs) == 1, '%d figures' % len(figs))
        if len(units) % 4 == 0 or any(u['kind'] is None and n[0] in SPECIAL for u, n in zip(units, case['circuits'][0]['nodes'])):
            figs[0].canvas.draw()           # all texts and markers can be rendered
        pages = check_figure(figs[0], units, nopt, ncl, 'drawing')
        title = case['title'] or ('chain' if len(built) > 1 and not s else 'Optical circuit')
        lib.need(all(p['title'] == title for p in pages if p['nodes']), 'titles %s, expected %r' % ([p['title'] for p in pages], title))
        found = [t for p in pages for t in p['texts']]
        for c in case['circuits']:
            lib.need(c['name'] in found, 'the name of circuit %r is not shown' % c['name'])
        want = ['ol%d' % k if case['labels'] else 'optical %d' % k for k in range(case['circuits'][0]['N'])] + \
            ['cl%d' % k if case['labels'] else 'classical %d' % k for k in range(case['circuits'][0]['C'])]
        if case['labels'] and case.get('cut'):
            nc = case['circuits'][0]['C']
            want = [t[:case['cut']] for t in s['channel_labels_optical'][:case['circuits'][0]['N']] + s['channel_labels_classical'][:nc]]
        rows = decode(figs[0], nopt)[1]
        if len(set(want)) == len(want):
            for k, w in enumerate(want):
                y = rows[k if k < case['circuits'][0]['N'] else nopt + k - case['circuits'][0]['N']]
                lib.need(any(t == w and abs(y - z) < 1e-6 for t, _, z in pages[0]['at']), 'the label %r is not at the line of its channel' % w)
        names = [z for t, _, z in pages[0]['at'] if t == case['circuits'][0]['name']]
        lib.need(names and min(names) > rows[0], 'the name of the circuit is not above the channels %s %s' % (names, rows))
        want = list(dict.fromkeys(want)) if len(set(want)) == len(want) else []
        ys = [next((y for t, x, y in pages[0]['at'] if t == w), None) for w in want]
        lib.need(None not in ys, 'channel labels %s are not shown' % [w for w, y in zip(want, ys) if y is None])
        lib.need(ys == sorted(ys, reverse=True) and len(set(ys)) == len(ys), 'channel labels are not in order')
    finally:
        plt.close('all')
    after = [observe(c, s, s['N']) for (c, _), s in zip(built, case['circuits'])]
    lib.need(before == after, 'drawing changed the results of a circuit')
    lib.need([str(c) for c, _ in built] == texts, 'drawing changed the text of a circuit')
    ctx.label('circuits%d' % len(built), 'pages%d' % len(pages))
    ctx.nt(len(units) > 2 and any(set(u['o']) & set(v['o']) or set(u['c']) & set(v['c']) for i, u in enumerate(units) for v in units[:i]))


@st.composite
def stations(draw):
    c = draw(one_circuit(True, most=9))
    chain = [c]
    for k in range(draw(st.sampled_from([0, 0, 1, 2]))):
        d = draw(one_circuit(True, most=5, dims=(c['N'], c['C'])))
        d['name'] += str(k)
        chain.append(d)
    for d in chain:
        d['nodes'] = [['pbs'] + n[1:3] if n[0].startswith('npbs') else n for n in d['nodes']]
    c['nodes'] = [['pbs'] + n[1:3] if n[0].startswith('npbs') else n for n in c['nodes']]       # a combined box can be cut by leaving out one of its nodes
    who = NAMES[:draw(st.sampled_from([1, 2, 2, 3, 3]))]
    own_o = [draw(st.integers(0, len(who))) for _ in range(c['N'])]        # len(who): nobody
    own_c = [draw(st.integers(0, len(who))) for _ in range(c['C'])]
    pick = draw(st.sampled_from(['one', 'list', 'all', 'all']))
    return dict(circuits=chain, who=who, own_o=own_o, own_c=own_c, pick=pick, order=draw(st.permutations(who)), count=draw(st.integers(1, len(who))),
                single=draw(st.sampled_from(who)), omit=draw(st.booleans()))


def check_stations(case, ctx):
    """The drawing of a station shows the nodes on its channels, its own channels and the stations a node connects to."""
    built = [build(case, k) for k in range(len(case['circuits']))]
    c, units = built[0][0], [u for _, us in built for u in us]
    if len(built) > 1:
        c = fsc.CompoundFockStateCircuit([x for x, _ in built], compound_circuit_name='chain')
    spec = case['circuits'][0]
    mine = {}
    for k, w in enumerate(case['who']):
        o = [i for i in range(spec['N']) if case['own_o'][i] == k]
        cl = [i for i in range(spec['C']) if case['own_c'][i] == k]
        mine[w] = (o, cl)
    # a drawing of a circuit without nodes raises: stations without nodes in one of the circuits are left out
    mine = {w: (o, cl) for w, (o, cl) in mine.items() if all(any(set(u['o']) & set(o) or set(u['c']) & set(cl) for u in us) for _, us in built)}
    if not mine:
        return
    who = list(mine)
    single = case['single'] if case['single'] in mine else who[0]
    station_channels = {}
    for w, (o, cl) in mine.items():
        station_channels[w] = dict(optical_channels=o, classical_channels=cl)
        if case['omit']:
            station_channels[w] = {k: v for k, v in station_channels[w].items() if v}
    arg = dict(station_channels=station_channels)
    todo = list(who)
    if case['pick'] == 'one':
        todo = [single]
        arg['station_to_draw'] = single
    elif case['pick'] == 'list':
        todo = [w for w in case['order'] if w in mine][:case['count']]
        arg['station_to_draw'] = list(todo)
    local = {}
    for w in todo:
        o, cl = mine[w]
        local[w] = [dict(label=u['label'], o=sorted(o.index(x) for x in u['o'] if x in o), c=sorted(cl.index(x) for x in u['c'] if x in cl), n=1, kind=None)
                    for u in units if set(u['o']) & set(o) or set(u['c']) & set(cl)]
    before, text = [observe(x, y, y['N']) for (x, _), y in zip(built, case['circuits'])], str(c)
    plt.close('all')
    try:
        c.draw_station(arg)
        figs = figures()
        lib.need(len(figs) == len(todo), '%d figures for stations %s' % (len(figs), todo))
        for fig, w in zip(figs, todo):
            o, cl = mine[w]
            pages = check_figure(fig, local[w], len(o), len(cl), 'station %s' % w)
            lib.need(all(p['title'].endswith('station: ' + w) for p in pages), 'title %r of station %s' % (pages[0]['title'], w))
            found = [t for p in pages for t in p['texts']]
            want = ['%s, Opt.%d' % (w, k) for k in range(len(o))] + ['%s, Clas.%d' % (w, k) for k in range(len(cl))]
            for t in want:
                lib.need(t[:15] in found, 'station %s: the label %r of a channel is not shown' % (w, t))
            # the line from a node to another station does not run over other nodes
            for p in pages:
                for x, row in p['down']:
                    here = [(n[0], n[2] + [len(o) + r for r in n[3]]) for n in p['nodes'] if abs(n[1] - x) < 1e-3]
                    lib.need(any(max(r) == row for _, r in here), 'station %s: the line to another station at %s does not start at a node' % (w, x))
                    lib.need(all(max(r) <= row for _, r in here), 'station %s: the line to another station at %s runs over the nodes %s' % (w, x, here))
            links = []
            for u, node in zip(units, [n for x in case['circuits'] for n in x['nodes']]):
                if u['label'] not in [x['label'] for x in local[w]]:
                    continue
                if node[0] == 'meas':
                    others = {v for v in who if v != w for a, b in zip(node[1], node[2])
                              if (a in o or b in cl) and (a in mine[v][0] or b in mine[v][1])}
                else:
                    others = {v for v in who if v != w and (set(u['o']) & set(mine[v][0]) or set(u['c']) & set(mine[v][1]))}
                if others:
                    links.append(','.join(sorted(others)))
            shown = sorted(t.split('\n')[1] for t in found if t.startswith('To station(s):'))
            lib.need(len(links) == sum(len(p['down']) for p in pages), 'station %s: %d lines to other stations for %d nodes with a connection' % (w, sum(len(p['down']) for p in pages), len(links)))
            lib.need(shown == sorted(links), 'station %s: connections shown %s, expected %s' % (w, shown, sorted(links)))
    finally:
        plt.close('all')
    lib.need([observe(x, y, y['N']) for (x, _), y in zip(built, case['circuits'])] == before and str(c) == text, 'drawing stations changed the circuit')
    ctx.label(case['pick'], 'stations%d' % len(todo), 'circuits%d' % len(built))
    ctx.nt(len(who) > 1 and len(units) > 2)


FACETS = [Facet('texts', texts(), check_texts, 320, 8000), Facet('drawing', drawings(), check_drawing, 160, 3000),
          Facet('stations', stations(), check_stations, 200, 3000)]
