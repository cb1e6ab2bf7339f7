"""Named optical components do what their documentation says, including identities between them."""
import math
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet

RULE = ('a case is an identity between two lists of optical components (or a splitting law) with a state; it is non-trivial when the state has at '
        'least one photon in the channels of the components and, for identities, the state is changed by at least one of the two lists or by its first component')
PI = math.pi


def identities(a, b, c, d, t, p, q, r):
    """name -> (left list, right list): evaluated on the same state both lists must give the same result."""
    return {
        'hwp twice': ([['hwp', a, b, t], ['hwp', a, b, t]], []),
        'qwp twice is hwp': ([['qwp', a, b, t], ['qwp', a, b, t]], [['hwp', a, b, t]]),
        'hwp is wave plate': ([['hwp', a, b, t]], [['wp', a, b, t, PI]]),
        'qwp is wave plate': ([['qwp', a, b, t]], [['wp', a, b, t, PI / 2]]),
        'hwp45 is swap': ([['hwp45', a, b]], [['swap', a, b]]),
        'hwp225 is mix': ([['hwp225', a, b]], [['mix', a, b]]),
        'hwp225 is hwp': ([['hwp225', a, b]], [['hwp', a, b, PI / 8]]),
        'qwp225 is qwp': ([['qwp225', a, b]], [['qwp', a, b, PI / 8]]),
        'qwp45 is qwp': ([['qwp45', a, b]], [['qwp', a, b, PI / 4]]),
        'mix is 50% mixg': ([['mix', a, b]], [['mixg', a, b, 0.5]]),
        'mix twice': ([['mix', a, b], ['mix', a, b]], []),
        'mixg twice': ([['mixg', a, b, r], ['mixg', a, b, r]], []),
        'swap twice': ([['swap', a, b], ['swap', b, a]], []),
        'swap conjugates': ([['swap', a, b], ['wp', a, b, t, p], ['swap', a, b]], [['wp', b, a, t, p]]),
        'phases add': ([['ps', a, p], ['ps', a, q]], [['ps', a, p + q]]),
        'phases commute': ([['ps', a, p], ['ps', b, q]], [['ps', b, q], ['ps', a, p]]),
        'phase is wave plate at 0': ([['ps', b, p]], [['wp', a, b, 0.0, p]]),
        'retardance adds': ([['wp', a, b, t, p], ['wp', a, b, t, q]], [['wp', a, b, t, p + q]]),
        'no retardance': ([['wp', a, b, t, 0.0]], []),
        'half turn': ([['wp', a, b, t, p]], [['wp', a, b, t + PI, p]]),
        'quarter turn': ([['wp', a, b, t + PI / 2, p]], [['wp', a, b, t, -p], ['ps', a, p], ['ps', b, p]]),
        'full period': ([['ps', a, p]], [['ps', a, p + 2 * PI]]),
        'disjoint commute': ([['wp', a, b, t, p], ['wp', c, d, q, p]], [['wp', c, d, q, p], ['wp', a, b, t, p]]) if c is not None else ([], []),
        'pbs is swap': ([['pbs', [a, b], [c, d]]], [['swap', b, d]]) if c is not None else ([], []),
        'pbs twice': ([['pbs', [a, b], [c, d]], ['pbs', [a, b], [c, d]]], []) if c is not None else ([], []),
        'npbs50': ([['npbs50', [a, b], [c, d]]], [['mix', a, c], ['mix', b, d]]) if c is not None else ([], []),
        'npbs': ([['npbs', [a, b], [c, d], r]], [['mixg', a, c, r], ['mixg', b, d, r]]) if c is not None else ([], []),
    }


NAMES = sorted(identities(0, 1, 2, 3, 0.1, 0.2, 0.3, 0.4))


@st.composite
def identity(draw):
    L, N = draw(G.dims(500, Lmax=5, Nmax=4))
    return dict(L=L, N=N, **draw(G.flags), which=draw(st.sampled_from(NAMES)), order=list(draw(st.permutations(range(N)))),
                t=draw(G.angle), p=draw(G.angle), q=draw(G.angle), r=draw(G.refl), comps=draw(G.comps(L, N, L - 1)))


def run(case, nodes, comps):
    c = lib.circuit(case, nodes)
    return lib.read_one(c.evaluate_circuit(lib.collection(c, case, [dict(init='x', comps=comps)])), case)


def check_identity(case, ctx):
    """Identities between named components, on arbitrary states."""
    o = list(case['order']) + [None] * 4
    left, right = identities(o[0], o[1], o[2] if case['N'] >= 4 else None, o[3], case['t'], case['p'], case['q'], case['r'])[case['which']]
    if not left:
        return
    x = run(case, left, case['comps'])
    y = run(case, right, case['comps']).comps if right else lib.comps_of(case)
    lib.close(x.comps, y, 5e-4, case['which'])
    ctx.label(case['which'])
    first = run(case, left[:1], case['comps']) if len(left) > 1 else x
    ctx.nt(O.distance(first.comps, lib.comps_of(case)) > 1e-3)


@st.composite
def splitting(draw):
    L = draw(st.integers(2, 6))
    N = draw(st.integers(4, 4) if L <= 5 else st.integers(2, 2))
    return dict(L=L, N=N, **draw(G.flags), n=draw(st.integers(1, L - 1)), r=draw(G.refl), order=list(draw(st.permutations(range(N)))),
                kind=draw(st.sampled_from(['mixg', 'mixg', 'npbs', 'npbs50', 'mix', 'pbs', 'swap'])), pol=draw(st.integers(0, 1)),
                port=draw(st.integers(0, 1)))


def check_splitting(case, ctx):
    """n photons in one input of a splitter leave binomially with the requested probability, in the same polarization."""
    N, L, n, o, r = case['N'], case['L'], case['n'], case['order'], case['r']
    kind = case['kind']
    if N < 4:
        kind = {'npbs': 'mixg', 'npbs50': 'mix', 'pbs': 'swap'}.get(kind, kind)
    if kind in ('mixg', 'mix', 'swap'):
        a, b = o[:2]
        node = [kind, a, b] + ([r] if kind == 'mixg' else [])
        src, dst = (a, b) if case['port'] == 0 else (b, a)
    else:
        ports = [o[:2], o[2:4]]
        node = [kind, ports[0], ports[1]] + ([r] if kind == 'npbs' else [])
        src, dst = ports[case['port']][case['pol']], ports[1 - case['port']][case['pol']]
    stay = {'mixg': r, 'npbs': r, 'mix': 0.5, 'npbs50': 0.5, 'swap': 0.0, 'pbs': 1.0 if case['pol'] == 0 else 0.0}[kind]
    v = [0] * N
    v[src] = n
    out = run(case, [node], [[v, [1.0, 0.0]]]).comps
    for k in range(n + 1):
        w = [0] * N
        w[src], w[dst] = k, n - k
        want = math.comb(n, k) * stay ** k * (1 - stay) ** (n - k)
        got = abs(out.get(tuple(w), 0)) ** 2
        lib.need(abs(got - want) < 1e-4, '%s: %d of %d photons stay in channel %d with probability %.5f, expected %.5f' % (node, k, n, src, got, want))
    ctx.label(kind, 'photons%d' % n)
    ctx.nt()


@st.composite
def interference(draw):
    L = draw(st.integers(3, 6))
    N = 2 if L > 5 else draw(st.integers(2, 4))
    return dict(L=L, N=N, **draw(G.flags), ch=draw(G.pair(N)), k=draw(st.integers(1, (L - 1) // 2)), kind=draw(st.sampled_from(['mix', 'hwp225', 'mixg', 'npbs50'])))


def check_interference(case, ctx):
    """k photons in both inputs of a balanced splitter never leave with an odd number per output."""
    N, k, (a, b) = case['N'], case['k'], case['ch']
    kind = case['kind']
    if kind == 'npbs50':
        rest = [x for x in range(N) if x not in (a, b)]
        if len(rest) < 2:
            kind = 'mix'
    node = ['npbs50', [a, rest[0]], [b, rest[1]]] if kind == 'npbs50' else [kind, a, b] + ([0.5] if kind == 'mixg' else [])
    v = [0] * N
    v[a] = v[b] = k
    out = run(case, [node], [[v, [1.0, 0.0]]]).comps
    for w, x in out.items():
        if w[a] % 2:
            lib.need(abs(x) ** 2 < 1e-6, '%s on %s: odd outcome %s with probability %.4f' % (node, v, w, abs(x) ** 2))
    for j in range(k + 1):
        w = list(v)
        w[a], w[b] = 2 * j, 2 * k - 2 * j
        want = math.comb(2 * j, j) * math.comb(2 * k - 2 * j, k - j) / 4 ** k
        got = abs(out.get(tuple(w), 0)) ** 2
        lib.need(abs(got - want) < 1e-4, '%s on %s: outcome %s has probability %.5f, expected %.5f' % (node, v, w, got, want))
    ctx.label(kind, 'photons%d' % (2 * k))
    ctx.nt()


SCALE = 4.5
FACETS = [Facet('identity', identity(), check_identity, 640, 20000), Facet('splitting', splitting(), check_splitting, 240, 4000),
          Facet('interference', interference(), check_interference, 96, 1000)]
