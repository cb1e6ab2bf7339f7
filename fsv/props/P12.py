"""Custom matrices, shifts, controlled shifts and couplings act as specified on the photon numbers."""
import numpy as np
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a list of shift, controlled shift, coupling or custom matrix nodes on superpositions; it is non-trivial when the states change '
        'or a list of nodes that undo each other is applied whose first node changes the states')


@st.composite
def shifts(draw):
    L, N = draw(G.dims(130, Lmax=6, Nmax=4))
    if draw(st.integers(0, 11)) == 0:
        L, N = 11, 2
    return prog.related(draw, dict(L=L, N=N, C=1, **draw(G.flags), nodes=draw(st.lists(G.any_node(L, N, 0, kinds=['shift', 'shiftd', 'cs', 'csd', 'fperm']), min_size=1, max_size=3)),
                states=[draw(G.state(L, N, 1, None)) for _ in range(draw(st.integers(1, 2)))]))


def check_shifts(case, ctx):
    """Shifts and controlled shifts modulo the length of the Fock state and permutation matrices, on superpositions."""
    got = lib.read(prog.run(case)[1], case)
    want = prog.expected(case)
    lib.compare(got, want, tol=1e-5, ptol=1e-6, what='nodes %s' % case['nodes'])
    ctx.label(*sorted({n[0] for n in case['nodes']}), 'digits%d' % O.digits(case['L']))
    ctx.nt(prog.changed(case, got))


@st.composite
def relations(draw):
    L, N = draw(G.dims(100, Lmax=5, Nmax=4))
    return dict(L=L, N=N, C=0, **draw(G.flags), states=[draw(G.state(L, N, 0))],
                kind=draw(st.sampled_from(['shift order', 'cshift order', 'direct', 'cdirect', 'coupling0', 'coupling1', 'couplinglist', 'int arguments', 'joint'])),
                ch=draw(G.subset(N, 1, 3)) + draw(st.sampled_from([[], [], [0]])), amounts=[draw(st.integers(-L, 2 * L)) for _ in range(4)],
                pairs=draw(st.lists(G.pair(N), min_size=1, max_size=3)))


def check_relations(case, ctx):
    """L times the same (controlled) shift is the identity; direct and matrix versions agree; coupling 0 and 1 are identity and controlled shift."""
    L, k = case['L'], case['kind']
    ch, am = case['ch'], case['amounts'][:len(case['ch'])]
    cc, tt = [p[0] for p in case['pairs']], [p[1] for p in case['pairs']]
    c1, c2 = lib.circuit(case, []), lib.circuit(case, [])
    n1 = n2 = None
    if k == 'shift order':
        for _ in range(L):
            c1.shift(target_channels=list(ch), shift_per_channel=list(am))
    elif k == 'cshift order':
        for _ in range(L):
            c1.c_shift(control_channels=cc[:1], target_channels=tt[:1])
    elif k == 'direct':
        c1.shift(target_channels=list(ch), shift_per_channel=list(am))
        c2.shift_direct(target_channels=list(ch), shift_per_channel=list(am))
    elif k == 'joint':
        c1.shift(target_channels=list(ch), shift_per_channel=list(am))
        for a, b in zip(ch, am):
            c2.shift(target_channels=[a], shift_per_channel=[b])
    elif k == 'cdirect':
        c1.c_shift(control_channels=cc, target_channels=tt)
        c2.c_shift_direct(control_channels=cc, target_channels=tt)
    elif k == 'coupling0':
        c1.channel_coupling(control_channels=cc, target_channels=tt, coupling_strength=0)
    elif k == 'coupling1':
        c1.channel_coupling(control_channels=cc, target_channels=tt, coupling_strength=1)
        c2.c_shift(control_channels=cc, target_channels=tt)
    elif k == 'couplinglist':
        c1.channel_coupling(control_channels=cc, target_channels=tt, coupling_strength=1)
        for a, b in zip(cc, tt):
            c2.channel_coupling(control_channels=[a], target_channels=[b], coupling_strength=1)
    elif k == 'int arguments':
        c1.c_shift(control_channels=cc[0], target_channels=tt[0])
        c2.c_shift_direct(control_channels=cc[:1], target_channels=tt[:1])
    a = lib.read(prog.run(case, circuit=c1)[1], case)
    b = lib.read(prog.run(case, circuit=c2)[1], case)
    lib.compare(a, b, tol=1e-5, what=k)
    ctx.label(k)
    ctx.nt(prog.changed(case, a) or 'order' in k or k == 'coupling0')


@st.composite
def matrices(draw):
    L, N = draw(G.dims(64, Lmax=6, Nmax=4))
    return dict(L=L, N=N, C=0, **draw(G.flags), seed=draw(st.integers(0, 10 ** 6)), kind=draw(st.sampled_from(['unitary', 'any', 'project', 'sparse'])),
                states=[draw(G.state(L, N, 0)) for _ in range(draw(st.integers(1, 2)))])


def check_matrices(case, ctx):
    """A custom matrix in the Fock basis is multiplied with the state vector in the order given by basis()."""
    L, N = case['L'], case['N']
    n = L ** N
    rng = np.random.default_rng(case['seed'])
    M = rng.normal(size=(n, n)) + 1j * rng.normal(size=(n, n))
    if case['kind'] == 'unitary':
        M = np.linalg.qr(M)[0]
    elif case['kind'] == 'project':
        M = np.diag((rng.random(n) < 0.6).astype(complex))
    elif case['kind'] == 'sparse':
        M = M * (rng.random((n, n)) < 3 / n)
    if case['kind'] in ('any', 'sparse'):
        M = M / max(1e-9, np.linalg.norm(M, 2))
    c = lib.circuit(case, [])
    names = list(c.basis().keys())
    lib.need(names == [O.name_of(O.values_at(k, L, N), L, case['left']) for k in range(n)], 'basis()')
    c.custom_fock_state_node(custom_fock_matrix=M)
    got = lib.read(prog.run(case, circuit=c)[1], case)
    lib.need(len(got) == len(case['states']), 'number of states')
    for g, s in zip(got, case['states']):
        v = np.zeros(n, dtype=complex)
        for w, a in lib.comps_of(s).items():
            v[O.index_of(w, L)] = a
        r = M @ v
        lib.close(g.comps, {O.values_at(k, L, N): r[k] for k in range(n)}, 5e-5, 'custom Fock matrix (%s)' % case['kind'])
        lib.need(g.init == s['init'] and abs(g.cum - s['cum']) < 1e-9, 'label or probability changed')
    ctx.label(case['kind'])
    ctx.nt(prog.changed(case, got))


@st.composite
def optical(draw):
    L, N = draw(G.dims(130, Lmax=5, Nmax=4))
    return dict(L=L, N=N, C=0, **draw(G.flags), states=[draw(G.state(L, N, 0, L - 1))], ch=draw(G.pair(N)),
                m=[[draw(st.integers(-10, 10)) / 20, draw(st.integers(-10, 10)) / 20] for _ in range(4)])


def check_optical(case, ctx):
    """A custom 2x2 optical matrix, unitary or not, acts on the creation operators of the given channels in the given order."""
    M = np.array([complex(*x) for x in case['m']]).reshape(2, 2)
    M = M / max(1.0, np.linalg.norm(M, 2))
    node = ['copt', case['ch'], [[[x.real, x.imag] for x in row] for row in M]]
    got = lib.read(prog.run(case, nodes=[node])[1], case)
    want = O.apply2(lib.comps_of(case['states'][0]), case['ch'][0], case['ch'][1], M, case['L'])
    lib.close(got[0].comps, want, 1e-4, 'custom optical node %s' % node)
    ctx.label('photons%d' % max(sum(v) for v in lib.comps_of(case['states'][0])))
    ctx.nt(any(v[case['ch'][0]] + v[case['ch'][1]] > 0 for v in lib.comps_of(case['states'][0])))


SCALE = 5
FACETS = [Facet('shifts', shifts(), check_shifts, 320, 10000), Facet('relations', relations(), check_relations, 160, 5000),
          Facet('matrices', matrices(), check_matrices, 240, 8000), Facet('optical', optical(), check_optical, 240, 8000)]
