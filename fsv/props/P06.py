"""Evaluation composes over nodes and over states."""
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a program and a way to split it over evaluations, node selections, circuits or states; it is non-trivial when the program '
        'changes the states and is split in at least two non-empty parts')


@st.composite
def splits(draw):
    p = draw(prog.program(nodes=(2, 7)))
    n = len(p['nodes'])
    cuts = sorted(set(draw(st.lists(st.integers(1, n - 1), min_size=1, max_size=3))))
    return dict(p, cuts=cuts, how=draw(st.sampled_from(['select', 'circuits', 'fresh'])))


def check_split(case, ctx):
    """Evaluating the nodes in segments gives the result of evaluating them at once."""
    n = len(case['nodes'])
    bounds = [0] + case['cuts'] + [n]
    whole = lib.read(prog.run(case)[1], case)
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    spans = lib.node_spans(case)
    for lo, hi in zip(bounds, bounds[1:]):
        select = [k for span in spans[lo:hi] for k in span]
        if case['how'] == 'select':
            coll = c.evaluate_circuit(collection_of_states_input=coll, nodes_to_be_evaluated=select)
        elif case['how'] == 'circuits':
            coll = lib.circuit(case, case['nodes'][lo:hi]).evaluate_circuit(coll)
        else:
            coll = lib.circuit(case).evaluate_circuit(coll, select)
    lib.compare(lib.read(coll, case), whole, what='segments %s (%s)' % (bounds, case['how']))
    ctx.label(case['how'], *sorted({x[0] for x in case['nodes']}))
    ctx.nt(prog.changed(case, whole))


@st.composite
def selections(draw):
    p = draw(prog.program(nodes=(2, 6)))
    return dict(p, select=draw(st.lists(st.integers(0, len(p['nodes']) - 1), min_size=0, max_size=7)))


def check_selection(case, ctx):
    """Any selection of nodes, in any order and with repetitions, acts like a circuit of exactly those nodes in that order."""
    want = lib.read(prog.run(case, nodes=[case['nodes'][k] for k in case['select']])[1], case)
    spans = lib.node_spans(case)
    select = [j for k in case['select'] for j in spans[k]]
    got = lib.read(prog.run(case, select=select)[1], case)
    lib.compare(got, want, what='selection %s' % case['select'])
    s = case['select']
    ctx.label('increasing' if all(a < b for a, b in zip(s, s[1:])) else 'other order')
    ctx.nt(prog.changed(case, want) and len(s) >= 2 and s != list(range(len(case['nodes']))))


@st.composite
def several(draw):
    return dict(draw(prog.program(states=(2, 5))))


def check_states(case, ctx):
    """Each state evolves as if it were alone in the collection, and the order of the states is kept."""
    sts = [dict(s, init='s%d' % i) for i, s in enumerate(case['states'])]
    got = lib.read(prog.run(case, states=sts)[1], case)
    want = []
    for s in sts:
        want += lib.read(prog.run(case, states=[s])[1], case)
    lib.compare(got, want, what='states together')
    order = [r.init for r in got]
    lib.need(order == sorted(order, key=lambda x: int(x[1:])), 'states left the order of the input: %s' % order)
    lib.need(len({r.id for r in got}) == len(got), 'identifiers are not unique')
    for s in sts:
        tot = sum(r.cum for r in got if r.init == s['init'])
        lib.need(abs(tot - s['cum']) < 1e-3, 'probabilities of %s sum to %.5f, expected %.5f' % (s['init'], tot, s['cum']))
    ctx.label('states%d' % len(sts))
    ctx.nt(prog.changed(case, got))


def check_large(case, ctx):
    """Many states or nodes: each state as if it were alone, and the nodes in two evaluations."""
    sts = [dict(s, init='s%d' % i) for i, s in enumerate(case['states'])]
    got = lib.read(prog.run(case, states=sts)[1], case)
    pick = sts if len(sts) < 5 else [sts[k] for k in sorted({0, 1, len(sts) // 3, len(sts) // 2, len(sts) - 2, len(sts) - 1})]
    want = []
    for s in pick:
        want += lib.read(prog.run(case, states=[s])[1], case)
    names = {s['init'] for s in pick}
    lib.compare([r for r in got if r.init in names], want, what='states together')
    order = [int(r.init[1:]) for r in got]
    lib.need(order == sorted(order), 'states left the order of the input: %s' % order)
    lib.need({r.init for r in got} == {s['init'] for s in sts}, 'a state disappeared')
    lib.need(len({r.id for r in got}) == len(got), 'identifiers are not unique')
    n = sum(len(x) for x in lib.node_spans(case))
    c = lib.circuit(case)
    mid = c.evaluate_circuit(lib.collection(c, case, sts), list(range(n // 2)))
    halves = lib.read(c.evaluate_circuit(mid, list(range(n // 2, n))), case)
    lib.compare(halves, got, what='two halves of the circuit')
    ctx.label('states%d0' % (len(sts) // 10), 'nodes%d0' % (len(case['nodes']) // 10))
    ctx.nt(prog.changed(case, got))


SCALE = 2
FACETS = [Facet('split', splits(), check_split, 280, 10000), Facet('selection', selections(), check_selection, 280, 10000),
          Facet('states', several(), check_states, 240, 8000),
          Facet('large', prog.large(), check_large, 40, 2000)]
