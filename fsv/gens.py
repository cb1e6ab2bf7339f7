"""Hypothesis strategies for JSON-able cases."""
import math
import random
from hypothesis import strategies as st

PI = math.pi
SPECIAL = [0.0, PI / 8, PI / 4, PI / 2, PI, -PI / 4, PI / 3, 3 * PI / 4, 2 * PI, PI / 6]
angle = st.one_of(st.sampled_from(SPECIAL), st.integers(-60, 60).map(lambda k: k / 10.0), st.floats(-7, 7, allow_nan=False).map(lambda x: round(x, 2)))


def pair(N):
    """An ordered pair of different channels."""
    return st.permutations(range(N)).map(lambda p: list(p[:2])) if N <= 4 else \
        st.tuples(st.integers(0, N - 1), st.integers(0, N - 2)).map(lambda t: [t[0], t[1] + (t[1] >= t[0])])


def subset(N, lo=1, hi=None):
    """A list of different channels in any order."""
    hi = N if hi is None else min(hi, N)
    return st.permutations(range(N)).flatmap(lambda p: st.integers(lo, hi).map(lambda k: list(p[:k])))


amp = st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(list)


@st.composite
def values(draw, L, N, total=None):
    """Photon numbers per channel; when total is given their sum is at most total."""
    if total is None:
        return [draw(st.integers(0, L - 1)) for _ in range(N)]
    left, out = total, []
    for k in draw(st.permutations(range(N))):
        v = draw(st.integers(0, min(L - 1, left)))
        out.append((k, v))
        left -= v
    return [v for _, v in sorted(out)]


def fix_sum(vals, total, L):
    """Change the values so that they sum to the total (no more than L-1 per channel)."""
    vals = list(vals)
    k = 0
    while sum(vals) < total and k < 100:
        if vals[k % len(vals)] < L - 1:
            vals[k % len(vals)] += 1
        else:
            k += 1
            continue
        k += 1
    return vals


@st.composite
def many_comps(draw, L, N, total=None, same=False, lo=20, hi=60):
    """A state with many components (as far as there are so many basis states); the terms follow from a drawn number."""
    rnd = random.Random(draw(st.integers(0, 10 ** 6)))
    k = draw(st.integers(lo, hi))
    out = {}
    for _ in range(4 * k):
        left, v = (total if total is not None else N * L), [0] * N
        for c in rnd.sample(range(N), N):
            v[c] = rnd.randint(0, min(L - 1, left))
            left -= v[c]
        if same and total is not None:
            v = fix_sum(v, total, L)
        out.setdefault(tuple(v), complex(rnd.choice([-3, -2, -1, 1, 2, 3]), rnd.randint(-3, 3)))
        if len(out) == k:
            break
    n = math.sqrt(sum(abs(a) ** 2 for a in out.values()))
    return [[list(v), [a.real / n, a.imag / n]] for v, a in out.items()]


@st.composite
def comps(draw, L, N, total=None, same=False, max_terms=4):
    """A normalised pure state as a list [[values, [re, im]], ..]."""
    if max_terms > 1 and draw(st.integers(0, 15)) == 15:
        return draw(many_comps(L, N, total, same))
    k = draw(st.integers(1, max_terms))
    out = {}
    for _ in range(k):
        v = draw(values(L, N, total))
        if same and total is not None:
            v = fix_sum(v, total, L)
        a = draw(amp)
        out[tuple(v)] = complex(*a)
    out = {v: a for v, a in out.items() if a != 0}
    if not out:
        out = {tuple(v): 1 + 0j}
    n = math.sqrt(sum(abs(a) ** 2 for a in out.values()))
    return [[list(v), [a.real / n, a.imag / n]] for v, a in out.items()]


@st.composite
def dims(draw, max_size=1300, Lmax=5, Nmax=5, Lmin=2, Nmin=2, big=True):
    """Length of fock state and number of channels with a bounded number of basis states. Now and then two channels with many photons."""
    if big and Nmin <= 2 and max_size >= 81 and draw(st.integers(0, 19)) == 7:
        return draw(st.sampled_from([L for L in (9, 10, 11, 12) if L * L <= max(max_size, 121)])), 2
    N = draw(st.integers(Nmin, Nmax))
    hi = Lmin
    while hi < Lmax and (hi + 1) ** N <= max_size:
        hi += 1
    L = draw(st.integers(Lmin, hi))
    return L, N


def unitary2():
    """A 2x2 unitary with entries as [re, im]."""
    def make(t):
        a, b, c, d = t
        import cmath
        e = cmath.exp(1j * a)
        U = [[e * cmath.exp(1j * b) * math.cos(d), e * cmath.exp(1j * c) * math.sin(d)],
             [-e * cmath.exp(-1j * c) * math.sin(d), e * cmath.exp(-1j * b) * math.cos(d)]]
        return [[[x.real, x.imag] for x in row] for row in U]
    return st.tuples(angle, angle, angle, angle).map(make)


refl = st.one_of(st.sampled_from([0.0, 0.25, 0.5, 0.75, 1.0]), st.integers(0, 100).map(lambda k: k / 100), st.integers(0, 100).map(lambda k: k / 100),
                 st.integers(1, 20).map(lambda k: k / 4000), st.integers(1, 20).map(lambda k: 1 - k / 4000))


@st.composite
def optical_node(draw, N, custom=True):
    kinds = ['wp', 'wp', 'hwp', 'qwp', 'hwp225', 'hwp45', 'qwp225', 'qwp45', 'mix', 'mix', 'mixg', 'swap', 'ps']
    if N >= 4:
        kinds += ['pbs', 'npbs50', 'npbs', 'pbs', 'npbs']
    if custom:
        kinds += ['copt', 'copt']
    op = draw(st.sampled_from(kinds))
    if op == 'ps':
        return ['ps', draw(st.integers(0, N - 1)), draw(angle)]
    if op in ('pbs', 'npbs50', 'npbs'):
        p = draw(st.permutations(range(N)))
        node = [op, list(p[:2]), list(p[2:4])]
        return node + ([draw(refl)] if op == 'npbs' else [])
    a, b = draw(pair(N))
    if op == 'wp':
        return [op, a, b, draw(angle), draw(angle)]
    if op in ('hwp', 'qwp'):
        return [op, a, b, draw(angle)]
    if op == 'mixg':
        return [op, a, b, draw(refl)]
    if op == 'copt':
        return [op, [a, b], draw(unitary2())]
    return [op, a, b]


@st.composite
def state(draw, L, N, C, total=None, same=False, label=None, max_terms=4, cvals=None):
    s = dict(init=label or draw(st.sampled_from(['a', 'b', '10', 'init'])),
             comps=draw(comps(L, N, total, same, max_terms)),
             cum=draw(st.sampled_from([1.0, 1.0, 1.0, 0.5, 0.5, 0.25, 0.25, 0.3, 0.003])))
    if C:
        s['cl'] = [draw(cvals if cvals is not None else classical_value(L)) for _ in range(C)]
    return s


def classical_value(L):
    return st.one_of(st.integers(0, L - 1), st.sampled_from([0, 1, 0.5, PI / 2, PI / 4, PI, -1.2]), st.integers(-30, 30).map(lambda k: k / 10))


cfun = lambda C: st.one_of(
    st.tuples(st.sampled_from(['add', 'mul', 'sum']), subset(C)).flatmap(
        lambda t: st.lists(st.integers(-3, 3), min_size=len(t[1]), max_size=len(t[1])).map(lambda v: ['cfun', t[0], t[1], v])),
    st.just(['cfun', 'rev', list(range(C)), [0] * C]))


@st.composite
def any_node(draw, L, N, C, matrix_nodes=True, measure=True, optical=2, kinds=None):
    allowed = kinds
    kinds = ['opt'] * (optical * 3) + ['shiftd', 'csd', 'gen_phase']
    if matrix_nodes:
        kinds += ['shift', 'cs', 'fperm']
    if C:
        kinds += ['setc', 'setc', 'cfun', 'wpc', 'wpc', 'psc', 'psc', 'gen_cset']
        if measure:
            kinds += ['meas', 'meas', 'meas']
    if allowed is not None:
        kinds = [k for k in kinds if k in allowed]
    kind = draw(st.sampled_from(kinds))
    if kind == 'opt':
        return draw(optical_node(N))
    if kind in ('shift', 'shiftd'):
        ch = draw(subset(N, 1, 3))
        if draw(st.integers(0, 5)) == 0:        # the same channel more than once
            ch = ch + [draw(st.sampled_from(ch))]
        return [kind, ch, [draw(st.integers(0, L) | st.integers(-2 * L, 2 * L)) for _ in ch]]
    if kind in ('cs', 'csd'):
        prs = draw(st.lists(pair(N), min_size=1, max_size=3))
        return [kind, [p[0] for p in prs], [p[1] for p in prs]]
    if kind == 'fperm':
        return ['fperm', draw(st.integers(0, 9999)), draw(st.lists(st.sampled_from([0.0, PI / 2, PI, 0.7]), min_size=1, max_size=3))]
    if kind == 'gen_phase':
        return ['gen', 'phase']
    if kind == 'gen_cset':
        return ['gen', 'cset']
    if kind == 'setc':
        ch = draw(subset(C))
        return ['setc', [draw(classical_value(L)) for _ in ch], ch]
    if kind == 'cfun':
        return draw(cfun(C))
    if kind == 'wpc':
        a, b = draw(pair(N))
        return ['wpc', a, b, draw(st.integers(0, C - 1)), draw(st.integers(0, C - 1))]
    if kind == 'psc':
        return ['psc', draw(st.integers(0, N - 1)), draw(st.integers(0, C - 1))]
    if kind == 'meas':
        k = draw(st.integers(1, min(N, C)))
        o = draw(subset(N, k, k))
        c = draw(subset(C, k, k))
        return ['meas', o, c]
    raise ValueError(kind)


flags = st.fixed_dictionaries(dict(left=st.booleans(), full=st.booleans()))
