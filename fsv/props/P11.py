"""Classical nodes change the classical channels as specified and nothing else."""
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a list of classical nodes and a collection of states; it is non-trivial when the classical values of a state change and '
        'there are at least two classical channels')


@st.composite
def cases(draw):
    L, N = draw(G.dims(81, Lmax=4, Nmax=4))
    C = draw(st.integers(1, 6))
    nodes = draw(st.lists(G.any_node(L, N, C, kinds=['setc', 'cfun']), min_size=1, max_size=5))
    return prog.related(draw, dict(L=L, N=N, C=C, **draw(G.flags), nodes=nodes, states=[draw(G.state(L, N, C)) for _ in range(draw(st.integers(1, 4)))]))


def check(case, ctx):
    """Values after setting and computing on classical channels; optical state, probability, history and labels stay."""
    coll, out = prog.run(case)
    got = lib.read(out, case)
    want = prog.expected(case)
    lib.need(len(got) == len(want), 'number of states changed')
    for g, w in zip(got, want):
        lib.need(all(abs(a - b) < 1e-9 for a, b in zip(g.cl, w.cl)), 'classical values %s, expected %s' % (g.cl, w.cl))
        lib.close(g.comps, w.comps, 1e-12, 'optical state')
        lib.need(g.init == w.init and abs(g.cum - w.cum) < 1e-12 and g.hist == [], 'label, probability or history changed')
    lib.need([g.id for g in got] == list(coll.keys()), 'identifiers changed')
    ctx.label(*sorted({n[0] for n in case['nodes']}))
    ctx.nt(case['C'] > 1 and any(g.cl != [float(x) for x in s['cl']] for g, s in zip(got, case['states'])))


@st.composite
def calls(draw):
    C = draw(st.integers(1, 5))
    aff = draw(G.subset(C))
    return dict(L=2, N=2, C=C, aff=aff, new=[draw(st.integers(-9, 9)) for _ in aff], left=True, full=False,
                states=[draw(G.state(2, 2, C)) for _ in range(draw(st.integers(1, 3)))], give=draw(st.integers(0, 3)))


def check_calls(case, ctx):
    """The function of a classical node gets the values of the state, the new values and the affected channels, once per state."""
    seen = []

    def function(current_values, new_input_values, affected_channels):
        seen.append((list(current_values), new_input_values, affected_channels))
        values = list(current_values)
        for v, c in zip(new_input_values or [5] * 9, affected_channels or list(range(case['C']))):
            values[c] = v * 10 + current_values[c]
        return values
    c = lib.circuit(case, [])
    kw = {}
    if case['give'] & 1:
        kw['new_input_values'] = list(case['new'])
    if case['give'] & 2:
        kw['affected_channels'] = list(case['aff'])
    c.classical_channel_function(function, **kw)
    coll = lib.collection(c, case, case['states'])
    got = lib.read(c.evaluate_circuit(coll), case)
    lib.need(len(seen) == len(case['states']), 'function called %d times for %d states' % (len(seen), len(case['states'])))
    for (cur, new, aff), s, g in zip(seen, case['states'], got):
        lib.need(cur == s['cl'], 'function was called with %s for a state with %s' % (cur, s['cl']))
        if case['give'] & 1:
            lib.need(list(new) == case['new'], 'new values %s, given %s' % (new, case['new']))
        if case['give'] & 2:
            lib.need(list(aff) == case['aff'], 'affected channels %s, given %s' % (aff, case['aff']))
        if case['give'] == 3:
            want = list(s['cl'])
            for v, ch in zip(case['new'], case['aff']):
                want[ch] = v * 10 + s['cl'][ch]
            lib.need(all(abs(a - b) < 1e-9 for a, b in zip(g.cl, want)), 'values %s, expected %s' % (g.cl, want))
    ctx.nt(case['C'] > 1 and case['give'] == 3)


many = prog.large().map(lambda c: dict(c, nodes=[n for n in c['nodes'] if n[0] in ('setc', 'cfun')] or [['setc', [1.5], [0]]]))


SCALE = 5
FACETS = [Facet('values', cases(), check, 480, 15000), Facet('calls', calls(), check_calls, 160, 3000), Facet('many', many, check, 60, 3000)]
