"""Histograms and correlations read from a collection, and the figures made of them."""
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog, pulses as T
from fsv.core import Facet
from fsv.props import P19

RULE = ('a case is a collection of states with classical values; it is non-trivial when at least two states have the same initial state')
ASSUMPTIONS = ['classical values for the names of outcomes are not negative (the documentation and the code differ there)']


@st.composite
def collections(draw, C=(1, 4)):
    L = draw(st.sampled_from([2, 3, 4, 10, 11, 12]))
    N = 2
    c = draw(st.integers(*C))
    small = draw(st.booleans())
    val = st.integers(0, 1 if small else L - 1) if draw(st.booleans()) else st.one_of(st.integers(0, 2 * L), st.sampled_from([0.5, 1.0, 2.7, 1.999]))
    inits = ['a', 'b', '10', 'x y', 'c', '01'][:draw(st.sampled_from([1, 2, 2, 3, 4, 4, 6]))]
    states = []
    n = draw(st.integers(1, 8)) if draw(st.integers(0, 9)) else draw(st.integers(9, 30))
    for _ in range(n):
        states.append(dict(draw(G.state(L, N, c, 2, label=draw(st.sampled_from(inits)), max_terms=2)), cl=[draw(val) for _ in range(c)],
                           cum=draw(st.sampled_from([1.0, 0.5, 0.25, 0.1, 0.0, 0.3])) / 1.0))
    chans = draw(st.one_of(st.just([]), G.subset(c), st.lists(st.integers(0, c - 1), min_size=1, max_size=5)))
    keep = draw(st.one_of(st.just([]), st.lists(st.sampled_from(inits + ['not there']), min_size=1, max_size=3, unique=True)))
    return dict(L=L, N=N, C=c, left=draw(st.booleans()), states=states, chans=chans, keep=keep,
                combis=draw(st.lists(st.tuples(st.integers(0, c - 1), st.integers(0, c - 1)).map(list), min_size=1, max_size=4)))


def histogram(case, chans, keep):
    chans = chans or list(range(case['C']))
    out, names = {}, []
    for s in case['states']:
        if keep and s['init'] not in keep:
            continue
        name = O.name_of([int(s['cl'][k]) % case['L'] for k in chans], case['L'], case['left'])
        if name not in names:
            names.append(name)
        d = out.setdefault(s['init'], {})
        d[name] = d.get(name, 0) + s['cum']
    return out, names


def same_histogram(got, want, names):
    lib.need(list(got) == list(want), 'initial states %s, expected %s' % (list(got), list(want)))
    for init, lst in got.items():
        h = {}
        for e in lst:
            lib.need(e['output_state'] not in h, 'outcome %r is listed twice for %r' % (e['output_state'], init))
            h[e['output_state']] = e['probability']
        lib.need(set(h) == set(names), 'outcomes %s for %r, expected %s' % (sorted(h), init, sorted(names)))
        for n in names:
            lib.need(abs(h[n] - want[init].get(n, 0)) < 1e-6, 'probability %.6f of outcome %r for %r, expected %.6f' % (h[n], n, init, want[init].get(n, 0)))


def check_histo(case, ctx):
    """plot() as histogram: probabilities of the states with the same classical values add up per initial state; every outcome is listed everywhere."""
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    want, names = histogram(case, case['chans'], case['keep'])
    got = coll.plot(classical_channels=list(case['chans']), initial_states=list(case['keep']), histo_output_instead_of_plot=True)
    same_histogram(got, want, names)
    lib.need(lib.snapshot(coll) == before, 'plot changed the collection')
    again = coll.plot(classical_channels=list(case['chans']), initial_states=list(case['keep']), histo_output_instead_of_plot=True)
    same_histogram(again, want, names)
    full = coll.plot(histo_output_instead_of_plot=True)
    same_histogram(full, *histogram(case, [], []))
    nt(case, ctx)


def nt(case, ctx):
    inits = [s['init'] for s in case['states']]
    ctx.label('left' if case['left'] else 'right', 'initial states %d' % len(set(inits)))
    ctx.nt(len(set(inits)) < len(inits))


def correlations(case):
    out = {}
    for s in case['states']:
        v = [int(x) % case['L'] for x in s['cl']]
        d = out.setdefault(s['init'], [[0, 0] for _ in case['combis']])
        for k, (a, b) in enumerate(case['combis']):
            d[k][0] += s['cum'] if v[a] == v[b] else -s['cum']
            d[k][1] += s['cum']
    return out


def check_corr(case, ctx):
    """plot_correlations(): (P(equal) - P(different)) / total for every pair of channels and initial state."""
    for s in case['states']:
        s['cum'] = max(s['cum'], 0.05)
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    got = coll.plot_correlations([tuple(x) for x in case['combis']], correlation_output_instead_of_plot=True, initial_states_to_assess=list(case['keep']))
    want = {k: [x / t for x, t in v] for k, v in correlations(case).items() if not case['keep'] or k in case['keep']}
    lib.need(list(got) == list(want), 'initial states %s, expected %s' % (list(got), list(want)))
    for k in want:
        lib.need(len(got[k]) == len(want[k]) and all(abs(x - y) < 1e-6 for x, y in zip(got[k], want[k])), 'correlations of %r: %s, expected %s' % (k, got[k], want[k]))
    lib.need(lib.snapshot(coll) == before, 'plot_correlations changed the collection')
    nt(case, ctx)


def bars(fig):
    """{(bar group, colour): height} of the bars that are not background, number of groups, tick labels and legend."""
    from matplotlib import colors
    ax = fig.axes[0]
    grey = colors.to_rgba('whitesmoke')
    b = [(round(p.get_x() + p.get_width() / 2, 6), p.get_facecolor(), p.get_height()) for p in ax.patches if tuple(p.get_facecolor()) != grey]
    ticks = sorted((round(float(t.get_position()[0]), 4), t.get_text()) for t in ax.get_xticklabels())
    return b, ticks, [t.get_text() for t in ax.get_legend().get_texts()], [l.get_color() for l in ax.get_legend().get_lines()], (ax.get_title(), ax.get_ylabel())


def check_figure(case, ctx):
    """The figures show the numbers of the histogram: one bar per initial state and outcome, with the colour of the legend, at the tick of the initial state."""
    import matplotlib.pyplot as plt
    from matplotlib import colors
    keep = [k for k in case['keep'] if k != 'not there'] if case['kind'] != 'corr' else case['keep']
    for s in case['states']:
        s['cum'] = max(s['cum'], 0.05)
    case['keep'] = keep = [k for k in keep if k in {s['init'] for s in case['states']}]
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    plt.close('all')
    info = {k: v for k, v in (case.get('info') or {}).items() if v and case['kind'] != 'dict'}
    try:
        if case['kind'] == 'plot':
            want, names = histogram(case, case['chans'], keep)
            coll.plot(classical_channels=list(case['chans']), initial_states=list(keep), info_for_bar_plot=dict(info))
            want = {i: [h.get(n, 0) for n in names] for i, h in want.items()}
        elif case['kind'] == 'corr':
            case['combis'] = [list(x) for x in dict.fromkeys(map(tuple, case['combis']))]
            coll.plot_correlations([tuple(x) for x in case['combis']], info_for_bar_plot=dict(info), initial_states_to_assess=list(keep))
            want = {k: [x / t for x, t in v] for k, v in correlations(case).items() if not keep or k in keep}
            names = [str(tuple(x)) for x in case['combis']]
        else:
            want, names = histogram(case, case['chans'], keep)
            want = {i: [h.get(n, 0) * 2 - 1 for n in names] for i, h in want.items()}
            key = ['probability', 'correlation']
            d = {}
            for k, (i, v) in enumerate(want.items()):      # another order of the outcomes for each initial state
                d[i] = [{'output_state': n, key[(len(names) + k + j) % 2 if case['L'] % 2 else len(names) % 2]: x} for j, (n, x) in enumerate(zip(names, v))]
                d[i] = d[i][k % len(names):] + d[i][:k % len(names)]
            (fsc.plot_correlations_from_dict if case['C'] % 2 else fsc.plot_correlations_for_NS_boxes)(d)
        figs = plt.get_fignums()
        lib.need(len(figs) == 1, '%d figures' % len(figs))
        b, ticks, legend, lcol, shown = bars(plt.figure(figs[0]))
    finally:
        plt.close('all')
    lib.need(lib.snapshot(coll) == before, 'the plot changed the collection')
    lib.need([t for _, t in ticks] == list(want) and all(abs(x - i) < 1e-3 for i, (x, _) in enumerate(ticks)), 'tick labels %s, expected %s' % (ticks, list(want)))
    lib.need(sorted(legend) == sorted(names), 'legend %s, expected %s' % (legend, names))
    lib.need(shown[0] == info.get('title', shown[0]) and shown[1] == info.get('ylabel', shown[1]), 'title and label of the axis are %s, expected %s' % (shown, info))
    if 'colors' in info:
        lib.need({colors.to_rgba(x) for x in lcol} == {colors.to_rgba(x) for x in info['colors'][:len(lcol)]}, 'colours %s, expected %s' % (lcol, info['colors']))
    want = {init: [v[names.index(n)] for n in legend] for init, v in want.items()}
    names = legend
    lib.need(len(b) == sum(len(v) for v in want.values()), '%d bars, expected %d' % (len(b), sum(len(v) for v in want.values())))
    width = 0.8 / len(names)
    for x, (init, v) in enumerate(want.items()):
        for i, h in enumerate(v):
            pos = x + (i - len(names) // 2) * width
            hit = [t for t in b if abs(t[0] - pos) < 1e-4]
            lib.need(any(abs(t[2] - h) < 1e-6 and tuple(t[1]) == colors.to_rgba(lcol[i]) for t in hit),
                     'no bar of height %.4f for %r and %r, found %s' % (h, init, names[i], hit))
    ctx.label(case['kind'])
    nt(case, ctx)


@st.composite
def figures(draw):
    return dict(draw(collections()), kind=draw(st.sampled_from(['plot', 'corr', 'dict'])),
                info=dict(title=draw(st.sampled_from([None, 'T', 'Other title'])), ylabel=draw(st.sampled_from([None, 'my label'])),
                          colors=draw(st.sampled_from([None, None, ['red', 'green'], ['navy', 'gold', 'black', 'pink']]))))


@st.composite
def programs(draw):
    p = draw(prog.program(Cmin=1, nodes=(1, 5), total=True, matrix_nodes=False))
    k = draw(st.integers(1, min(p['N'], p['C'])))
    p['nodes'].append(['setc', [0] * p['C'], list(range(p['C']))])
    p['nodes'].append(['meas', draw(G.subset(p['N'], k, k)), draw(G.subset(p['C'], k, k))])
    for i, s in enumerate(p['states']):
        s['init'] = 's%d' % i
    return p


def check_program(case, ctx):
    """The histogram after a measurement gives the probabilities of the photon numbers in the measured channels for each initial state."""
    out = prog.run(case)[1]
    got = out.plot(histo_output_instead_of_plot=True)
    want = {}
    for b in prog.expected(case):
        d = want.setdefault(b.init, {})
        n = O.name_of([int(x) % case['L'] for x in b.cl], case['L'], case['left'])
        d[n] = d.get(n, 0) + b.cum
    for s in case['states']:
        g = {e['output_state']: e['probability'] for e in got.get(s['init'], [])}
        w = want[s['init']]
        bad = {k: (g.get(k, 0), w.get(k, 0)) for k in set(g) | set(w) if abs(g.get(k, 0) - w.get(k, 0)) > 2e-4}
        lib.need(not bad, 'probabilities (got, expected) for %r: %s' % (s['init'], bad))
        lib.need(abs(sum(g.values()) - s['cum']) < 5e-4, 'the probabilities add up to %.5f, expected %.5f' % (sum(g.values()), s['cum']))
    ctx.nt(any(len(w) > 1 for w in want.values()))


def check_timed(case, ctx):
    """The histogram of photons with timing: probabilities of all columns with the same classical values add up per initial state."""
    case = P19.settle(case)
    c = T.circuit(case)
    out = c.evaluate_circuit(collection_of_states_input=lib.collection(c, case, case['states']))
    before = lib.snapshot(out)
    got, want = T.table(out, case), T.summary(T.expected(case), case)
    P19.compare(got, want, 2e-4, 'histogram after %s' % case['nodes'])
    lib.need(lib.snapshot(out) == before, 'plot changed the collection')
    ctx.label('initial states %d' % len({s['init'] for s in case['states']}))
    ctx.nt(len(case['states']) > 1)


SCALE = 3
FACETS = [Facet('histo', collections(), check_histo, 320, 12000), Facet('corr', collections(), check_corr, 240, 8000),
          Facet('figure', figures(), check_figure, 80, 1500), Facet('program', programs(), check_program, 160, 5000),
          Facet('timed', P19.circuits(), check_timed, 80, 3000)]
