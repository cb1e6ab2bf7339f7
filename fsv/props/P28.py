"""The Fock matrix of a circuit is the transformation its evaluation applies."""
import numpy as np
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet, Violation

RULE = ('a case is a list of optical nodes with a selection of nodes; it is non-trivial when the matrix differs from the identity and moves photons '
        'between states of two or more photons, or the circuit changed between two requests')


@st.composite
def matrices(draw):
    L, N = draw(G.dims(140, Lmax=6, Nmax=5))
    if draw(st.integers(0, 15)) == 0:       # a long circuit
        L, N = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (4, 2)]))
        c = draw(prog.large(states=(14, 14)))
        nodes = [n for n in c['nodes'] if n[0] in ('wp', 'hwp', 'mixg', 'ps', 'swap', 'mix') and max(n[1:3] if n[0] != 'ps' else n[1:2]) < N] or [['mix', 0, 1]]
        pick = draw(st.lists(st.integers(0, 60), min_size=8, max_size=25))
    else:
        nodes = draw(st.lists(G.optical_node(N), min_size=1, max_size=5))
        pick = [draw(st.integers(0, 60)) for _ in range(draw(st.integers(1, 5)))]
    return prog.related(draw, dict(L=L, N=N, C=0, **draw(G.flags), nodes=nodes, pick=pick,
                states=[draw(G.state(L, N, 0))]))


def oracle_matrix(case, nodes):
    L, N = case['L'], case['N']
    n = L ** N
    gates = [g for node in nodes for g in O.mode_gates(node)]
    M = np.zeros((n, n), dtype=complex)
    for k in range(n):
        for w, a in O.apply_gates({O.values_at(k, L, N): 1.0}, gates, L).items():
            if max(w) < L:      # a phase shift given as a wave plate leaves rounding errors outside the basis
                M[O.index_of(w, L), k] = a
    return M


def near(A, B, tol, what):
    A = np.asarray(A)
    lib.need(A.shape == B.shape, '%s: the matrix has shape %s, expected %s' % (what, A.shape, B.shape))
    d = np.max(np.abs(A - B)) if A.size else 0.0
    k = np.unravel_index(int(np.argmax(np.abs(A - B))), A.shape)
    lib.need(d <= tol, '%s: entry %s is %s, expected %s' % (what, tuple(map(int, k)), A[k], B[k]))


def check_matrix(case, ctx):
    """The matrix of all nodes and of a selection (any order, repeats) is that of the oracle, a product of node matrices, and of what evaluation does to a state."""
    L, N = case['L'], case['N']
    c = lib.circuit(case)
    want = oracle_matrix(case, case['nodes'])
    M = c.get_fock_state_matrix()
    near(M, want, 3e-4, 'nodes %s' % case['nodes'])
    # the nodes do not all add one entry to the node list (beam splitters on two channel pairs add two)
    spans = lib.node_spans(case)
    order = [k % len(spans) for k in case['pick']]
    sel = [i for k in order for i in spans[k]]
    S = c.get_fock_state_matrix(nodes_to_be_evaluated=list(sel))
    near(S, oracle_matrix(case, [case['nodes'][k] for k in order]), 3e-4, 'selection %s of nodes %s' % (order, case['nodes']))
    product = np.eye(L ** N)
    for i in sel:
        product = np.asarray(c.get_fock_state_matrix(nodes_to_be_evaluated=[i])) @ product
    near(S, product, 3e-4, 'product of the matrices of nodes %s' % sel)
    # number states below the length of the Fock state form an invariant, unitary sector
    idx = [k for k in range(L ** N) if sum(O.values_at(k, L, N)) < L]
    U = np.asarray(M)[np.ix_(idx, idx)]
    near(U.conj().T @ U, np.eye(len(idx)), 1e-3, 'the sector of fewer than %d photons is not unitary' % L)
    # evaluation multiplies the state vector with the matrix, in the order of basis()
    names = list(c.basis().keys())
    lib.need(len(names) == L ** N, 'basis()')
    coll, out = prog.run(case, circuit=c)
    src = next(iter(coll)).optical_components
    v = np.array([complex(src[n]['amplitude']) if n in src else 0 for n in names])
    r = np.asarray(M) @ v
    got = next(iter(out)).optical_components
    for n, a in zip(names, r):
        b = complex(got[n]['amplitude']) if n in got else 0
        lib.need(abs(a - b) < 3e-4, 'component %s is %s after evaluation, the matrix gives %s' % (n, b, a))
    near(c.get_fock_state_matrix(), np.asarray(M), 1e-6, 'after an evaluation')
    ctx.label('nodes%d' % len(case['nodes']), 'full' if case['full'] else 'reduced', 'L%d' % L)
    ctx.nt(np.max(np.abs(want - np.diag(np.diag(want)))) > 1e-3 and L > 2)


@st.composite
def histories(draw):
    L, N = draw(G.dims(100, Lmax=5, Nmax=4))
    steps = draw(st.lists(st.one_of(G.optical_node(N).map(lambda n: ['add', n]), st.just(['all']), st.integers(0, 30).map(lambda k: ['one', k]),
                                    st.just(['eval'])), min_size=2, max_size=9))
    return dict(L=L, N=N, C=0, **draw(G.flags), first=draw(G.optical_node(N)), steps=steps, states=[draw(G.state(L, N, 0))])


def check_history(case, ctx):
    """In any history of adding nodes, asking matrices and evaluating, a matrix is that of the nodes present at the moment of asking."""
    c = lib.circuit(case, [case['first']])
    nodes, asked, fresh = [case['first']], 0, False
    for s in case['steps']:
        if s[0] == 'add':
            lib.add(c, s[1], case)
            nodes.append(s[1])
            fresh = fresh or asked > 0
        elif s[0] == 'all':
            near(c.get_fock_state_matrix(), oracle_matrix(case, nodes), 3e-4, 'nodes %s' % nodes)
            asked += 1
        elif s[0] == 'one':
            spans = lib.node_spans(dict(case, nodes=nodes))
            k = s[1] % len(spans)
            near(c.get_fock_state_matrix(nodes_to_be_evaluated=list(spans[k])), oracle_matrix(case, [nodes[k]]), 3e-4, 'node %s' % nodes[k])
            asked += 1
        else:
            out = lib.read_one(prog.run(case, circuit=c)[1], case)
            want = prog.expected(case, nodes=nodes)[0]
            lib.close(out.comps, want.comps, 3e-4, 'evaluation of nodes %s' % nodes)
            asked += 1
    near(c.get_fock_state_matrix(), oracle_matrix(case, nodes), 3e-4, 'nodes %s' % nodes)
    ctx.label('asked%d' % min(asked, 5), 'nodes%d' % len(nodes))
    ctx.nt(fresh)


@st.composite
def refused(draw):
    L, N = draw(G.dims(60, Lmax=4, Nmax=4))
    kind = draw(st.sampled_from(['setc', 'cfun', 'wpc', 'psc', 'meas', 'shiftd', 'gen_phase', 'shift', 'fperm']))
    nodes = draw(st.lists(G.optical_node(N), min_size=1, max_size=3))
    at = draw(st.integers(0, len(nodes)))
    return dict(L=L, N=N, C=2, **draw(G.flags), nodes=nodes[:at] + [draw(G.any_node(L, N, 2, kinds=[kind]))] + nodes[at:], at=at,
                states=[draw(G.state(L, N, 2))])


def check_refused(case, ctx):
    """A circuit with any other node has no such matrix: asking for it raises, a selection of the optical nodes alone still works."""
    c = lib.circuit(case)
    try:
        M = c.get_fock_state_matrix()
    except Exception:   # noqa: BLE001
        M = None
    lib.need(M is None, 'a matrix is returned for a circuit with a node %s' % case['nodes'][case['at']])
    spans = lib.node_spans(case)
    order = [k for k in range(len(case['nodes'])) if k != case['at']]
    S = c.get_fock_state_matrix(nodes_to_be_evaluated=[i for k in order for i in spans[k]])
    near(S, oracle_matrix(case, [case['nodes'][k] for k in order]), 3e-4, 'optical nodes of %s' % case['nodes'])
    one = case['nodes'][case['at']]
    if one[0] in ('fperm', 'shift'):
        n = case['L'] ** case['N']
        try:
            P = np.array(c.get_fock_state_matrix(nodes_to_be_evaluated=list(spans[case['at']])))
        except Exception as exc:   # noqa: BLE001
            raise Violation('no matrix for the custom matrix node %s: %s' % (one, exc))
        want = np.zeros((n, n), dtype=complex)
        for k in range(n):
            s = O.MState('a', 1.0, {O.values_at(k, case['L'], case['N']): 1.0}, [0, 0])
            for w, a in O.step([s], one, case['L'], case['N'])[0].comps.items():
                want[O.index_of(w, case['L']), k] = a
        near(P, want, 1e-5, 'custom matrix node %s' % one)
    ctx.label(one[0])
    ctx.nt()


SCALE = 2
FACETS = [Facet('matrix', matrices(), check_matrix, 900, 15000), Facet('history', histories(), check_history, 640, 10000),
          Facet('refused', refused(), check_refused, 320, 4000)]
