"""Measurement follows the Born rule and collapses the state."""
import math
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a state, possibly after optical nodes, and one or more measurements; it is non-trivial when at least two outcomes have a '
        'probability above 1e-4')


@st.composite
def meas(draw, N, C):
    k = draw(st.integers(1, min(N, C)))
    return ['meas', draw(G.subset(N, k, k)), draw(G.subset(C, k, k))]


@st.composite
def single(draw):
    L, N = draw(G.dims(700, Lmax=4, Nmax=5))
    if draw(st.integers(0, 9)) == 0:
        L, N = draw(st.integers(11, 12)), 2
    C = draw(st.integers(1, 5))
    many = draw(st.integers(0, 11)) == 11   # enough outcomes to run out of letters
    if many:
        L, N, C = draw(st.sampled_from([(6, 2), (4, 3), (3, 4), (2, 6)])) + (draw(st.integers(2, 6)),)
    sts = [draw(G.state(L, N, C, None, max_terms=6)) for _ in range(draw(st.integers(1, 3)))]
    for s in sts:
        if many:
            s['comps'] = draw(G.many_comps(L, N, lo=27))
        if draw(st.booleans()):
            s['hist'] = [[[float(draw(st.integers(0, 2))) for _ in range(C)], 0.5]]
    return dict(L=L, N=N, C=C, **draw(G.flags), states=sts, nodes=[draw(meas(N, C))] if not many else [['meas', list(range(min(N, C))), list(range(min(N, C)))]])


def check_single(case, ctx):
    """One measurement of a mixture of superpositions: probabilities, collapsed states, classical values and history."""
    out = lib.read(prog.run(case)[1], case)
    want = prog.expected(case)
    lib.compare(out, want, tol=1e-5, ptol=1e-5, what='measurement %s' % case['nodes'][0])
    lib.need(len({r.id for r in out}) == len(out), 'identifiers are not unique')
    for r in out:
        lib.need(abs(O.norm2(r.comps) - 1) < 1e-5, 'collapsed state is not normalised')
    tot = sum(s['cum'] for s in case['states'])
    lib.need(abs(sum(r.cum for r in out) - tot) < 1e-5, 'probabilities sum to %.6f instead of %.6f' % (sum(r.cum for r in out), tot))
    ctx.label('outcomes%s' % (min(len(out), 8) if len(out) <= 26 else 'over26'), 'digits%d' % O.digits(case['L']))
    ctx.nt(len([w for w in want if w.cum > 1e-4]) > len(case['states']))


@st.composite
def sequences(draw):
    L, N = draw(G.dims(260, Lmax=4, Nmax=4))
    C = draw(st.integers(2, 4))
    ms = draw(st.lists(meas(N, C), min_size=2, max_size=4))
    return dict(L=L, N=N, C=C, **draw(G.flags), states=[draw(G.state(L, N, C, L - 1, max_terms=4))],
                pre=draw(st.lists(G.optical_node(N), max_size=3)), ms=ms)


def check_repeat(case, ctx):
    """Measuring again gives the same outcome with certainty; measuring in two steps gives the joint distribution."""
    first = case['ms'][0]
    case1 = dict(case, nodes=case['pre'] + [first])
    case2 = dict(case, nodes=case['pre'] + [first, first])
    a = lib.read(prog.run(case1)[1], case1)
    b = lib.read(prog.run(case2)[1], case2)
    lib.need(len(a) == len(b), 'repeating a measurement gives %d outcomes instead of %d' % (len(b), len(a)))
    for x, y in zip(a, b):
        lib.need(abs(x.cum - y.cum) < 1e-5 and x.cl == y.cl, 'repeating a measurement changes outcome or probability')
        lib.close(y.comps, x.comps, 1e-5, 'state after repeating a measurement')
        lib.need(len(y.hist) == len(x.hist) + 1 and y.hist[:-1] == x.hist and y.hist[-1][0] == tuple(y.cl) and abs(y.hist[-1][1] - 1) < 1e-5,
                 'history after repeating a measurement: %s' % (y.hist,))
    # joint versus sequential
    o, c = case['ms'][0][1], case['ms'][0][2]
    seq = dict(case, nodes=case['pre'] + [['meas', [i], [j]] for i, j in zip(o, c)])
    s = lib.read(prog.run(seq)[1], seq)
    d1, d2 = {}, {}
    for r in a:
        d1[tuple(r.cl)] = d1.get(tuple(r.cl), 0) + r.cum
    for r in s:
        d2[tuple(r.cl)] = d2.get(tuple(r.cl), 0) + r.cum
    for k in set(d1) | set(d2):
        lib.need(abs(d1.get(k, 0) - d2.get(k, 0)) < 1e-4, 'joint and sequential probabilities of %s: %.5f and %.5f' % (k, d1.get(k, 0), d2.get(k, 0)))
    ctx.nt(len([r for r in a if r.cum > 1e-4]) > 1)


@st.composite
def nosignal(draw):
    L, N = draw(G.dims(260, Lmax=4, Nmax=4, Nmin=2))
    k = draw(st.integers(1, N - 1))
    order = list(draw(st.permutations(range(N))))
    A, B = order[:k], order[k:]
    C = N
    st_ = draw(G.state(L, N, C, L - 1, max_terms=4))
    inner = draw(st.lists(G.optical_node(k), max_size=3)) if k >= 2 else [['ps', 0, draw(G.angle)]]
    return dict(L=L, N=N, C=C, **draw(G.flags), states=[st_], A=A, B=B, pre=draw(st.lists(G.optical_node(N), max_size=3)),
                inner=inner, measureA=draw(st.booleans()))


def check_nosignal(case, ctx):
    """What is done to some channels (optics, measurement) does not change the outcome probabilities of the others."""
    A, B = case['A'], case['B']
    inner = [prog.map_node(n, A) for n in case['inner']] + ([['meas', A, A]] if case['measureA'] else [])
    mB = [['meas', B, B]]
    dist = []
    for nodes in (case['pre'] + mB, case['pre'] + inner + mB, case['pre'] + mB + inner):
        r = lib.read(prog.run(dict(case, nodes=nodes))[1], case)
        d = {}
        for s in r:
            k = tuple(s.cl[b] for b in B)
            d[k] = d.get(k, 0) + s.cum
        dist.append(d)
    for d in dist[1:]:
        for k in set(d) | set(dist[0]):
            lib.need(abs(d.get(k, 0) - dist[0].get(k, 0)) < 3e-4, 'probability of outcome %s in channels %s changes from %.5f to %.5f by what happens in channels %s'
                     % (k, B, dist[0].get(k, 0), d.get(k, 0), A))
    ctx.label('measured' if case['measureA'] else 'optics')
    ctx.nt(len([1 for p in dist[0].values() if p > 1e-4]) > 1)


SCALE = 4
FACETS = [Facet('single', single(), check_single, 400, 15000), Facet('repeat', sequences(), check_repeat, 200, 6000),
          Facet('nosignal', nosignal(), check_nosignal, 160, 6000)]
