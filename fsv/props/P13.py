"""Gates given by Hamiltonians apply the exponential of the Hamiltonian."""
import math
import numpy as np
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a list of gates defined by Hamiltonians with a mixture of superpositions; it is non-trivial when a state changes and has at least '
        'one photon')
ASSUMPTIONS = ['angles times photon number below 6, where 25 terms of the exponential in single precision suffice',
               'wave plates: fewer photons in the two channels than the length of the Fock state']


@st.composite
def plates(draw):
    L, N = draw(G.dims(260, Lmax=5, Nmax=4, big=False))
    C = draw(st.integers(1, 3))
    lim = 6.0 / (L - 1)
    ang = st.one_of(st.sampled_from([0.0, math.pi / 8, math.pi / 4, math.pi / 2, -math.pi / 4, 1.0]).filter(lambda x: abs(x) <= lim),
                    st.integers(-100, 100).map(lambda k: round(k * lim / 100, 3)))
    nodes = []
    for _ in range(draw(st.integers(1, 2))):
        a, b = draw(G.pair(N))
        if draw(st.booleans()):
            nodes.append(['wph', a, b, draw(ang), draw(ang)])
        else:
            nodes.append(['wphc', a, b, draw(st.integers(0, C - 1)), draw(st.integers(0, C - 1))])
    return prog.related(draw, dict(L=L, N=N, C=C, **draw(G.flags), nodes=nodes,
                states=[draw(G.state(L, N, C, L - 1, cvals=ang)) for _ in range(draw(st.integers(1, 3)))]))


def check_plates(case, ctx):
    """Wave plates from Hamiltonians, static and controlled, against the wave plate on creation operators."""
    c = lib.circuit(case)
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    out = c.evaluate_circuit(collection_of_states_input=coll)
    lib.need(lib.snapshot(coll) == before, 'the input collection changed')
    got = lib.read(out, case)
    want = O.simulate([lib.model(s, case['C']) for s in case['states']], case['nodes'], case['L'], case['N'])
    lib.need(len(got) == len(want), 'number of states changed')
    for g, w in zip(got, want):
        lib.close(g.comps, w.comps, 2e-3, 'wave plates %s' % case['nodes'])
        lib.need((g.init, abs(g.cum - w.cum) < 1e-9, g.cl) == (w.init, True, [float(x) for x in w.cl]), 'label, probability or classical values changed')
    ctx.label(*[n[0] for n in case['nodes']])
    ctx.nt(any(O.distance(lib.comps_of(s), g.comps) > 1e-2 for s, g in zip(case['states'], got)))


def ladder(values, word, chans, L):
    """Creation and annihilation operators applied from left to right; returns (values, coefficient) or None."""
    v = list(values)
    x = 1.0
    for ch, cmd in zip(chans, word):
        if cmd == '+':
            v[ch] += 1
            x *= math.sqrt(v[ch])
        elif cmd == '-':
            if v[ch] == 0:
                return None
            x *= math.sqrt(v[ch])
            v[ch] -= 1
    return (tuple(v), x) if max(v) < L else None


def expm(A):
    k = max(0, int(math.ceil(math.log2(max(np.linalg.norm(A), 1e-9)))) + 6)
    B, out, term = A / 2 ** k, np.eye(len(A), dtype=complex), np.eye(len(A), dtype=complex)
    for n in range(1, 12):
        term = term @ B / n
        out = out + term
    for _ in range(k):
        out = out @ out
    return out


def transition(L, m, terms, chans):
    """Transition matrix [input][output] on m channels."""
    n = L ** m
    H = np.zeros((n, n), dtype=complex)
    for i in range(n):
        for word, re, im in terms:
            r = ladder(O.values_at(i, L, m), word, chans, L)
            if r is not None:
                H[i, O.index_of(r[0], L)] += complex(re, im) * r[1]
    return H


WORDS = {1: ['+', '-', '0'], 2: ['++', '--', '+0', '-0', '0+', '0-', '00']}


@st.composite
def general(draw):
    N = draw(st.integers(2, 4))
    m = draw(st.integers(1, min(3, N)))
    L = draw(st.integers(2, {1: 6, 2: 4, 3: 3}[m]))
    while L ** N > 300:
        L -= 1
    rep = draw(st.sampled_from([1, 1, 2]))
    order = draw(st.permutations(range(m)))
    chans = [k for k in order for _ in range(rep)]
    terms = []
    for _ in range(draw(st.integers(1, 3))):
        word = ''.join(draw(st.sampled_from(WORDS[rep])) for _ in range(m))
        a, b = draw(st.integers(-9, 9)) / 10, draw(st.integers(-9, 9)) / 10
        flip = word.translate(str.maketrans('+-', '-+'))
        if flip == word:
            terms.append([word, 0.0, b])
        else:                                  # together with the conjugate: antihermitian, so that the gate is unitary
            terms += [[word, a, b], [flip, -a, b]]
    norm = np.linalg.norm(transition(L, m, terms, chans), 2)
    if norm > 5:
        f = round(5 / norm, 3)
        terms = [[w, a * f, b * f] for w, a, b in terms]
    return dict(L=L, N=N, C=1, **draw(G.flags), chans=chans, terms=terms, on=draw(G.subset(N, m, m)), m=m,
                split=draw(st.sampled_from([None, None, 0.25, 0.5, -1.0])), single=draw(st.booleans()),
                states=[draw(G.state(L, N, 1)) for _ in range(draw(st.integers(1, 2)))])


def check_general(case, ctx):
    """Hamiltonians of creation and annihilation operators on up to three channels, whole or in two commuting parts, against the matrix exponential."""
    L, N, m, chans, on = case['L'], case['N'], case['m'], case['chans'], case['on']
    c = lib.circuit(case, [])
    if case['split'] is None:
        ops = [fsc.Hamiltonian([(w, complex(a, b)) for w, a, b in case['terms']], list(chans))]
        if case['single']:
            ops = ops[0]
    else:
        x = case['split']
        ops = [fsc.Hamiltonian([(w, complex(a, b) * y) for w, a, b in case['terms']], list(chans)) for y in (x, 1 - x)]
        if x < 0:
            ops = ops[:1]
    scale = -1.0 if case['split'] is not None and case['split'] < 0 else 1.0
    c.hamiltonian_operator_gate(list(on), ops)
    coll = lib.collection(c, case, case['states'])
    before = lib.snapshot(coll)
    got = lib.read(c.evaluate_circuit(collection_of_states_input=coll), case)
    lib.need(lib.snapshot(coll) == before, 'the input collection changed')
    lib.need(len(got) == len(case['states']), 'number of states changed')
    T = expm(scale * transition(L, m, case['terms'], chans))
    changed = False
    for s, g in zip(case['states'], got):
        want = {}
        for v, a in lib.comps_of(s).items():
            i = O.index_of([v[k] for k in on], L)
            for j in range(L ** m):
                if abs(T[i, j]) > 1e-7:
                    w = list(v)
                    for k, x in zip(on, O.values_at(j, L, m)):
                        w[k] = x
                    want[tuple(w)] = want.get(tuple(w), 0) + a * T[i, j]
        lib.close(g.comps, want, 2e-3, 'Hamiltonian %s of channels %s' % (case['terms'], on))
        lib.need(g.init == s['init'] and abs(g.cum - s.get('cum', 1)) < 1e-9 and g.cl == [float(x) for x in s['cl']], 'label, probability or classical values changed')
        changed |= O.distance(lib.comps_of(s), g.comps) > 1e-2
    ctx.label('channels%d' % m, 'repeated' if len(chans) > m else 'once', 'split' if case['split'] else 'whole')
    ctx.nt(changed)


SCALE = 4
FACETS = [Facet('plates', plates(), check_plates, 320, 6000), Facet('general', general(), check_general, 400, 8000)]
