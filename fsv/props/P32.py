"""Photon-resolved measurement of columns that are built by hand, with an overlap of photons defined by the user."""
import itertools
import math
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet

RULE = ('a case is a set of interference groups with their photons, the overlap between photons, and a measurement; it is non-trivial when two columns of a group lead to the same '
        'photon numbers and there are photons that overlap partially')

COLS = fsc.CollectionOfStateColumns


@st.composite
def vectors(draw):
    """Unit vectors, one per label: the internal states of the photons."""
    d = draw(st.integers(1, 3))
    out = []
    for _ in range(draw(st.integers(1, 4))):
        v = [[draw(st.integers(-4, 4)), 0] for _ in range(d)]
        out.append(v if any(x != [0, 0] for x in v) else [[1, 0]] + [[0, 0]] * (d - 1))
    return out


def unit(vs):
    out = []
    for v in vs:
        v = [complex(*x) for x in v]
        n = math.sqrt(sum(abs(x) ** 2 for x in v))
        out.append([x / n for x in v])
    return out


@st.composite
def group(draw, N, L, labels):
    cols = []
    top = draw(st.sampled_from([1, 2, 2, 3, 3, 4]))
    top = min(top, L - 1)
    chans = [draw(st.lists(st.integers(0, N - 1), min_size=top, max_size=top)) for _ in range(2)]
    for _ in range(draw(st.integers(1, 4))):
        ch = list(draw(st.permutations(draw(st.sampled_from(chans))))) if draw(st.integers(0, 3)) else draw(st.lists(st.integers(0, N - 1), min_size=0, max_size=top))
        a = draw(st.tuples(st.integers(-5, 5), st.integers(-5, 5)).filter(lambda t: t != (0, 0)))
        cols.append(dict(photons=[[c, draw(st.integers(0, labels - 1))] for c in ch], amp=list(a), boson=draw(st.sampled_from([1, 1, 2, 1.5, 0.5])), vac=draw(st.integers(0, 5)) == 0))
    return dict(cols=cols, prob=draw(st.sampled_from([1.0, 0.5, 0.25])))


@st.composite
def case(draw):
    L, N = draw(st.integers(2, 5)), draw(st.integers(2, 4))
    vs = draw(vectors())
    C = draw(st.integers(N, N + 2))
    groups = [draw(group(N, L, len(vs))) for _ in range(draw(st.integers(1, 2)))]
    first = draw(G.subset(N, 1, N))
    rest = [c for c in range(N) if c not in first]
    second = draw(st.permutations(rest)) if rest else []
    return dict(L=L, N=N, C=C, left=draw(st.booleans()), full=False, vectors=vs, groups=groups, initial=[draw(st.sampled_from(['a', 'a', 'b'])) for _ in groups],
                first=list(first), second=list(second), write=list(draw(st.permutations(range(C)))[:N]), cvals=draw(st.lists(st.integers(0, L - 1), min_size=C, max_size=C)),
                keep=draw(st.none() | st.lists(st.integers(0, 7), min_size=1, max_size=3)))


def perm(M):
    n = len(M)
    return 1 if n == 0 else sum(math.prod(M[i][p[i]] for i in range(n)) for p in itertools.permutations(range(n)))


def numbers(col, N):
    v = [0] * N
    for c, _ in col['photons']:
        v[c] += 1
    return tuple(v)


def law(cols, vs, N):
    """Probability of every outcome: norm of the sum of creation operators of the columns with those photon numbers."""
    out = {}
    for outcome in {numbers(c, N) for c in cols}:
        t = 0
        same = [c for c in cols if numbers(c, N) == outcome]
        for bra in same:
            for ket in same:
                x = complex(*bra['amp']).conjugate() * complex(*ket['amp']) / bra['boson'] / ket['boson']
                for ch in range(N):
                    b, k = [[l for c, l in s['photons'] if c == ch] for s in (bra, ket)]
                    x *= perm([[sum(p.conjugate() * q for p, q in zip(vs[i], vs[j])) for j in k] for i in b])
                t += x
        out[outcome] = max(0.0, t.real)
    return out


def build(cs, scale):
    """Columns with one state per photon, put together by hand; an amplitude of a column and its boson factor only matter as a ratio."""
    L, N, left = cs['L'], cs['N'], cs['left']
    c = lib.circuit(cs, [])
    coll = fsc.CollectionOfStates(c, dict())
    seen = {}
    for k, (g, ini) in enumerate(zip(cs['groups'], cs['initial'])):
        gid = seen[ini] = seen.get(ini, -1) + 1
        for j, col in enumerate(g['cols']):
            states = []
            photons = [([int(i == ch) for i in range(N)], lab) for ch, lab in col['photons']]
            if col['vac'] or not photons:
                photons.insert(len(photons) // 2, ([0] * N, None))
            for v, lab in photons:
                s = fsc.State(coll)
                s.optical_components = [(O.name_of(v, L, left), 1)]
                s.classical_channel_values = list(cs['cvals'])
                s.initial_state = ini
                s.auxiliary_information['photon_resolution'] = {'photon_information': {} if lab is None else {'label': lab}}
                states.append(s)
            column = fsc.ColumnOfStates(list_of_states=states, column_information=dict(
                column_identifier=j, interference_group_identifier=gid, column_amplitude=complex(*col['amp']) * scale[k], column_boson_factor=col['boson'], group_cumulative_probability=g['prob']))
            for s in column:
                coll.add_state(s)
    return coll


def prepare(cs):
    vs = unit(cs['vectors'])
    laws = [law(g['cols'], vs, cs['N']) for g in cs['groups']]
    totals = [sum(p.values()) for p in laws]
    if min(totals) < 0.05:
        return None
    laws = [{o: p / t for o, p in l.items()} for l, t in zip(laws, totals)]

    def overlap(bra, ket):
        return sum(p.conjugate() * q for p, q in zip(vs[bra['label']], vs[ket['label']]))
    return vs, laws, [1 / math.sqrt(t) for t in totals], overlap


def nontrivial(cs):
    vs = unit(cs['vectors'])
    for g in cs['groups']:
        ns = [numbers(c, cs['N']) for c in g['cols']]
        if len(set(ns)) < len(ns):
            labs = {l for c in g['cols'] for _, l in c['photons']}
            if any(1e-6 < abs(sum(p.conjugate() * q for p, q in zip(vs[i], vs[j]))) < 1 - 1e-6 for i in labs for j in labs):
                return True
    return False


def read(coll):
    """Groups in a collection by (initial state, group identifier): first state, number of states, probability, weight of the columns."""
    out = {}
    for s in coll:
        pr = s.auxiliary_information['photon_resolution']
        g = out.setdefault((s.initial_state, pr['interference_group_identifier']), dict(state=s, cols={}, states=[]))
        g['cols'][pr['column_identifier']] = pr['column_amplitude']
        g['states'].append(s)
        lib.need(list(s.classical_channel_values) == list(g['state'].classical_channel_values), 'states of one group with different classical values')
        lib.need(abs(pr['group_cumulative_probability'] - g['state'].auxiliary_information['photon_resolution']['group_cumulative_probability']) < 1e-9, 'states of one group with different probabilities')
    return out


def check_measure(cs, ctx):
    """Outcomes, probabilities, classical values and what is left after one measurement and after a second one agree with the sum of creation operators."""
    prep = prepare(cs)
    if prep is None:
        ctx.label('no probability')
        return
    vs, laws, scale, overlap = prep
    L, N, C, left = cs['L'], cs['N'], cs['C'], cs['left']
    coll = build(cs, scale)
    outs = sorted({o for l in laws for o in l})
    kw = {}
    if cs['keep'] is not None:
        chosen = sorted({outs[k % len(outs)] for k in cs['keep']})
        kw = dict(list_of_projections=[O.name_of(o, L, left) for o in chosen])
        laws = [{o: p for o, p in l.items() if o in chosen} for l in laws]
    first, second = cs['first'], cs['second']
    w1, w2 = cs['write'][:len(first)], cs['write'][len(first):]
    cols = COLS(coll)
    lib.need([id(s) for s in cols.by_state()] and len(list(cols.by_group())) == len(cs['groups']), 'groups of the collection of columns')
    cols.photon_probability_function = overlap
    result = cols.perform_measurement(optical_channels_to_measure=list(first), classical_channels_to_write_to=list(w1), **kw)
    for s in coll:
        lib.need(s.initial_state in ('a', 'b'), 'the collection that is measured')

    def compare(result, laws, chans, write, what):
        want = {}
        for g, ini, l in zip(cs['groups'], cs['initial'], laws):
            part = {}
            for o, p in l.items():
                part.setdefault(tuple(o[c] for c in chans), []).append(p)
            for o, ps in part.items():
                cv = list(cs['cvals'])
                for w, n in zip(write, o):
                    cv[w] = n
                want.setdefault((ini, tuple(cv)), []).append(g['prob'] * sum(ps))
        got = {}
        for (ini, _), g in read(result).items():
            pr = g['state'].auxiliary_information['photon_resolution']
            p = pr['group_cumulative_probability']
            if p > 1e-6:
                lib.need(abs(sum(abs(a) ** 2 for a in g['cols'].values()) - 1) < 1e-6, '%s: amplitudes of the columns are not normalized' % what)
            got.setdefault((ini, tuple(g['state'].classical_channel_values)), []).append(p)
        for key in set(want) | set(got):
            a, b = [sorted(x for x in d.get(key, []) if x > 1e-6) for d in (want, got)]
            lib.need(len(a) == len(b) and all(abs(x - y) < 1e-6 for x, y in zip(a, b)), '%s: outcome %s has probabilities %s, expected %s' % (what, key, b, a))
        return got

    compare(result, laws, first, w1, 'first measurement of %s' % first)
    for g in read(result).values():
        for s in g['states']:
            hist = s.measurement_results
            lib.need(len(hist) == 1 and list(hist[0]['measurement_results']) == list(s.classical_channel_values), 'measurement history %s' % hist)
    if second and len(result):
        cols = COLS(result)
        cols.photon_probability_function = overlap
        compare(cols.perform_measurement(list(second), list(w2)), laws, first + second, cs['write'][:N], 'measurement of %s and then %s' % (first, second))
    # taking columns apart or reading them in again makes no difference, there is nothing left to take apart
    cols = COLS(build(cs, scale)).new_instance_from_state_information()
    cols.split()
    cols.single_photon_states()
    cols.photon_probability_function = overlap
    compare(cols.perform_measurement(list(first), list(w1), kw.get('list_of_projections')), laws, first, w1, 'measurement of %s after reading in again' % first)
    ctx.label('photons%d' % max(len(c['photons']) for g in cs['groups'] for c in g['cols']), 'second' if second else 'all', 'projections' if kw else 'no projections', 'groups%d' % len(cs['groups']))
    ctx.nt(nontrivial(cs))


def check_totals(cs, ctx):
    """Total probability per outcome, and scaling of amplitudes and boson factors of a group."""
    prep = prepare(cs)
    if prep is None:
        return
    vs, laws, scale, overlap = prep
    L, N, left = cs['L'], cs['N'], cs['left']
    cols = COLS(build(cs, scale))
    cols.photon_probability_function = overlap
    for g, l, grp, sc in zip(sorted(cs['groups'], key=lambda g: 0), laws, order(cs, cols), scale):
        names = {O.name_of(o, L, left): p for o, p in l.items()}
        for kw in ({}, dict(list_of_projections=sorted(names)[:2])):
            got = grp.total_probability_for_group_all_outcomes(**kw)
            lib.need(set(got) == (set(kw['list_of_projections']) if kw else set(names)), 'outcomes %s, expected %s' % (sorted(got), sorted(names)))
            for k, p in got.items():
                lib.need(abs(p - names[k]) < 1e-6, 'probability of %s is %s, expected %s' % (k, p, names[k]))
        before = [c.column_amplitude for c in grp]
        grp.rescale_column_amplitudes()
        after = [c.column_amplitude for c in grp]
        n = math.sqrt(sum(abs(a) ** 2 for a in before))
        lib.need(all(abs(a / n - b) < 1e-9 for a, b in zip(before, after)), 'amplitudes %s after scaling, expected %s divided by %s' % (after, before, n))
        grp.rescale_boson_factors()
        for c, col in zip(g['cols'], grp):
            own = law([dict(c, amp=[1, 0], boson=col.column_boson_factor)], vs, N)[numbers(c, N)]
            lib.need(abs(own - 1) < 1e-6, 'detection probability of a column is %s times the square of its amplitude after scaling of boson factors' % own)
            lib.need(abs(abs(col.column_amplitude) - abs(complex(*c['amp'])) * sc / n) < 1e-9, 'amplitude of a column after scaling of boson factors')
    ctx.nt(nontrivial(cs))


def order(cs, cols):
    """The groups of the collection of columns in the order of the case."""
    out, seen = [], {}
    d = cols.as_dictionary()
    for ini in cs['initial']:
        k = seen[ini] = seen.get(ini, -1) + 1
        out.append(d[ini][k])
    return out


SCALE = 5
FACETS = [Facet('measure', case(), check_measure, 400, 8000), Facet('totals', case(), check_totals, 240, 5000)]
