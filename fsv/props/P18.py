"""Circuits connected by bridges act like the circuits one after the other on the resized collection."""
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet
from fsv.props.P16 import dm, same_dm

RULE = ('a case is a list of two to four circuits of different size with input states; it is non-trivial when two consecutive circuits differ in '
        'length or number of channels and the states change')


@st.composite
def chains(draw):
    left, full = draw(st.booleans()), draw(st.booleans())
    circuits = []
    dims = [draw(G.dims(130, Lmax=5, Nmax=4)) for _ in range(draw(st.integers(2, 4)))]
    most = max(N for _, N in dims)      # photons of one circuit can arrive in another one with more channels
    for L, N in dims:
        L = min(L, {2: 12, 3: 11, 4: 5}[most])
        C = draw(st.integers(0, 3))
        nodes = draw(st.lists(G.any_node(L, N, C, kinds=['opt', 'wpc', 'psc', 'setc', 'cfun', 'meas', 'shiftd', 'csd']), min_size=0, max_size=3))
        circuits.append(dict(L=L, N=N, C=C, left=left, full=full, nodes=nodes))
    f = circuits[0]
    return dict(circuits=circuits, states=[draw(G.state(f['L'], f['N'], f['C'], draw(st.sampled_from([None, f['L'] - 1])))) for _ in range(draw(st.integers(1, 2)))],
                how=draw(st.sampled_from(['bridge', 'compound', 'refresh', 'edited', 'replaced'])),
                order=draw(st.none() | st.lists(st.integers(1, len(circuits) - 1), max_size=2).map(lambda t: list(range(len(circuits))) + t)))


@st.composite
def narrowing(draw):
    """Photons that only fit the first circuit are in channels that the second one does not have, or in a superposition; the second one counts modulo its length."""
    left, full = draw(st.booleans()), draw(st.booleans())
    L1 = draw(st.integers(3, 5))
    N1 = draw(st.integers(3, 4 if L1 < 4 else 3))
    L2, N2 = draw(st.integers(2, L1 - 1)), draw(st.integers(2, N1 - 1))
    C = draw(st.integers(1, 3))
    circuits = [dict(L=L1, N=N1, C=C, left=left, full=full, nodes=draw(st.lists(G.any_node(L1, N1, C, kinds=['psc', 'setc', 'csd', 'shiftd']), max_size=1)))]
    circuits.append(dict(L=L2, N=N2, C=C, left=left, full=full,
                         nodes=draw(st.lists(G.any_node(L2, N2, C, kinds=['shiftd', 'csd', 'shiftd', 'meas', 'shift']), min_size=1, max_size=3))))
    if draw(st.booleans()):
        circuits.append(dict(circuits[-1], L=draw(st.integers(2, 4)), N=draw(st.integers(2, 4)),
                             nodes=draw(st.lists(G.any_node(L2, 2, C, kinds=['shiftd', 'csd']), max_size=2))))
    states = []
    for _ in range(draw(st.integers(1, 2))):
        s = draw(G.state(L1, N1, C, None))
        for t in s['comps']:
            for k in range(N2):
                if t[0][k] >= L2 and draw(st.integers(0, 5)):
                    t[0][k] = draw(st.integers(0, L2 - 1))
        keep = {}
        for v, a in s['comps']:
            keep[tuple(v)] = a
        n = sum(a[0] ** 2 + a[1] ** 2 for a in keep.values()) ** 0.5
        s['comps'] = [[list(v), [a[0] / n, a[1] / n]] for v, a in keep.items()]
        states.append(s)
    return dict(circuits=circuits, states=states, how=draw(st.sampled_from(['bridge', 'compound', 'refresh', 'edited', 'replaced'])),
                order=draw(st.none() | st.lists(st.integers(1, len(circuits) - 1), max_size=2).map(lambda t: list(range(len(circuits))) + t)))


def resize(m, spec):
    """Model state to a list of model states with the channels of spec: new channels vacuum and zero, removed ones traced out."""
    N, C = spec['N'], spec['C']
    groups = {}
    for v, a in m.comps.items():
        groups.setdefault(v[N:], {})[v[:N] + (0,) * (N - len(v))] = a
    out = []
    for comps in groups.values():
        p = O.norm2(comps)
        if p > 1e-12:
            s = m.copy()
            s.comps = {k: a / p ** 0.5 for k, a in comps.items()}
            s.cum = m.cum * p
            s.cl = m.cl[:C] + [0] * (C - len(m.cl))
            out.append(s)
    return out


def longer(case, order):
    """Lengths of the Fock state of the circuits so that the photons that arrive fit, and the result of the reference simulator. None when that gets too long."""
    Ls = [s['L'] for s in case['circuits']]
    for _ in range(40):
        model = [lib.model(s, case['circuits'][0]['C']) for s in case['states']]
        for pos, k in enumerate(order):
            spec = case['circuits'][k]
            if pos:
                model = [t for s in model for t in resize(s, spec)]
                for s in model:
                    s.comps = {v: a for v, a in s.comps.items() if abs(a) ** 2 > 1e-13}
                top = max([x for s in model for v in s.comps for x in v] or [0])
                if top >= Ls[k]:
                    Ls[k] = top + 1
                    break
            model = O.simulate(model, spec['nodes'], Ls[k], spec['N'])
        else:
            return Ls, model
        if len(order) > len(Ls) and Ls[k] ** spec['N'] > 1500:
            return None
    return None


def check(case, ctx):
    """Bridges by hand and compound circuits against the reference simulator with vacuum channels added and channels traced out."""
    order = case.get('order') if case['how'] not in ('bridge', 'edited') and case.get('order') else None
    fit = order and longer(case, order)
    if not fit:
        order = list(range(len(case['circuits'])))
        fit = longer(case, order)
    lengths, model = fit
    cases = [dict(s, L=x) for s, x in zip(case['circuits'], lengths)]
    specs = [cases[k] for k in order]
    if case['how'] == 'edited':     # nodes are added after the compound circuit was made and used
        circuits = [lib.circuit(s, s['nodes'][:len(s['nodes']) // 2]) for s in cases]
    else:
        circuits = [lib.circuit(s) for s in cases]
    circuits = [circuits[k] for k in order]     # a circuit can be in the list more than once
    sizes = [len(c.node_list) for c in circuits]
    if case['how'] == 'bridge':
        for a, b in zip(circuits, circuits[1:]):
            a.bridge(next_fock_state_circuit=b)
        run = circuits[0].evaluate_circuit
    elif case['how'] == 'compound':
        run = fsc.CompoundFockStateCircuit(list(circuits)).evaluate_circuit
    elif case['how'] in ('edited', 'replaced'):
        comp = fsc.CompoundFockStateCircuit(list(circuits) if case['how'] == 'edited' else [lib.circuit(dict(s), [['swap', 0, 1]] * len(lib.circuit(s).node_list)) for s in specs])
        if case['how'] == 'edited':
            comp.evaluate_circuit(collection_of_states_input=lib.collection(circuits[0], specs[0], case['states'][:1]))
            for c, s in zip(circuits, specs):
                for node in s['nodes'][len(s['nodes']) // 2:]:
                    lib.add(c, node, s)
            sizes = [len(c.node_list) for c in circuits]
        else:
            # before, the list had circuits with as many nodes, which do something else
            comp.evaluate_circuit(collection_of_states_input=lib.collection(circuits[0], specs[0], case['states'][:1]))
            if case.get('order') is None:
                comp.clear()
            if len(case['states']) > 1:
                comp.list_of_circuits = list(circuits)
            else:
                comp.list_of_circuits[:] = circuits
        comp.refresh()
        run = comp.evaluate_circuit
    else:
        if len(case['states']) > 1:
            fsc.CompoundFockStateCircuit().list_of_circuits.append(circuits[-1])
            comp = fsc.CompoundFockStateCircuit()
            lib.need(list(comp.list_of_circuits) == [], 'a compound circuit made without circuits has %d circuits' % len(comp.list_of_circuits))
            comp.list_of_circuits += circuits
        else:
            comp = fsc.CompoundFockStateCircuit(list(circuits[:1]))
            comp.list_of_circuits += circuits[1:]
        comp.refresh()
        run = comp.evaluate_circuit
    coll = lib.collection(circuits[0], specs[0], case['states'])
    before = lib.snapshot(coll)
    out = run(collection_of_states_input=coll)
    got = lib.read(out, specs[-1])
    lib.need(lib.snapshot(coll) == before, 'the input collection changed')
    if case['how'] != 'bridge':
        lib.need([len(c.node_list) for c in circuits] == sizes, 'the circuits in the list changed')
    g, w = dm(got, 0, 0), dm(model, 0, 0)

    def strip(d):     # history without probabilities
        res = {}
        for (init, cl, hist), x in d.items():
            t = res.setdefault((init, tuple(round(float(y), 6) + 0.0 for y in cl), tuple(tuple(round(float(y), 6) + 0.0 for y in h[0]) for h in hist)), {})
            for e, y in x.items():
                t[e] = t.get(e, 0) + y
        return {k: x for k, x in res.items() if sum(abs(y) for (a, b), y in x.items() if a == b) > 1e-5}
    g, w = strip(g), strip(w)
    for k in set(g) ^ set(w):       # branches close to the limit
        for d in (g, w):
            if k in d and sum(abs(y) for (a, b), y in d[k].items() if a == b) < 1e-4:
                del d[k]
    same_dm(g, w, 1e-3, 'chain of circuits (%s)' % case['how'])
    again = run(collection_of_states_input=coll)
    lib.need([(s.init, round(s.cum, 9), s.cl) for s in lib.read(again, specs[-1])] == [(s.init, round(s.cum, 9), s.cl) for s in got],
             'a second evaluation gives another result')
    dims = [(s['L'], s['N'], s['C']) for s in specs]
    ctx.label(case['how'], 'N ' + ''.join('<' if a[1] < b[1] else '>' if a[1] > b[1] else '=' for a, b in zip(dims, dims[1:])))
    ctx.nt(len(set(dims)) > 1 and any(s['nodes'] for s in specs))


SCALE = 1.5
FACETS = [Facet('chain', chains(), check, 480, 8000), Facet('narrow', narrowing(), check, 320, 5000)]
