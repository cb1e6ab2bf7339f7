"""Extending, reducing and changing the length of a collection keep the physics of the remaining channels."""
import math
import fock_state_circuit as fsc
import numpy as np
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet
from fsv.props import P07

RULE = ('a case is a collection of states with a change of its channels or length; it is non-trivial when a state is a superposition and, for '
        'reduce, at least one channel is removed; for extend, at least one channel is added')


def base(draw, max_size=130, Cmax=3, digits=False, Nmin=2):
    L, N = draw(G.dims(max_size, Lmax=5, Nmax=4, Nmin=Nmin))
    if draw(st.integers(0, 9)) == 0 and Nmin <= 2:
        L, N = 11, 2
    C = draw(st.integers(0, Cmax))
    if digits and draw(st.integers(0, 11)) == 0:      # two-digit photon numbers in several channels
        L, N = draw(st.sampled_from([(11, 3), (12, 4), (12, 4)]))
        sts = [draw(G.state(L, N, C, max_terms=2)) for _ in range(draw(st.integers(1, 2)))]
        for s in sts:
            vs = {tuple(draw(st.sampled_from([0, 1, 10, L - 1])) for _ in range(N)) for _ in range(draw(st.integers(2, 6)))}
            s['comps'] = [[list(v), [1 / math.sqrt(len(vs)), 0.0]] for v in sorted(vs)]
            if N == 4 and draw(st.booleans()):
                v = [0, 1, L - 1, draw(st.integers(0, 1))]
                s['comps'] = [[list(v), [0.6, 0.0]], [[v[k] for k in draw(st.permutations(range(4)))], [0.8, 0.0]]] if len(set(v)) > 2 else s['comps']
                if s['comps'][0][0] == s['comps'][1][0]:
                    s['comps'] = [[v, [1.0, 0.0]]]
    else:
        sts = [draw(G.state(L, N, C)) for _ in range(draw(st.sampled_from([1, 1, 2, 2, 3, 3, 0])))]
        for s in sts:
            kind = draw(st.sampled_from(['plain'] * 6 + ['zero', 'small', 'rare']))
            if kind == 'zero':      # a component with amplitude zero
                v = draw(G.values(L, N))
                s['comps'] += [] if list(v) in [x[0] for x in s['comps']] else [[list(v), [0.0, 0.0]]]
            elif kind == 'small' and len(s['comps']) > 1:
                s['comps'] = [[s['comps'][0][0], [math.sqrt(1 - 1e-6), 0.0]], [s['comps'][1][0], [0.0, 1e-3]]]
            elif kind == 'rare':
                s['cum'] = 2e-5
    for k, s in enumerate(sts):
        s['id'] = 'id%d' % k
        s['hist'] = [[[float(x) for x in s.get('cl', [])], 0.5]] if draw(st.booleans()) else []
    return dict(L=L, N=N, C=C, left=draw(st.booleans()), full=False, states=sts)


@st.composite
def reductions(draw):
    c = base(draw, Nmin=2, digits=True)
    N, C = c['N'], c['C']
    keep = draw(G.subset(N, 2, N))
    if draw(st.booleans()):
        keep = sorted(keep)
    thr = dict(thr=draw(st.sampled_from([1e-3, 1e-2]))) if draw(st.integers(0, 3)) == 0 else {}
    return dict(c, keep=keep, ckeep=draw(G.subset(C)) if C and draw(st.booleans()) else [], explicit=draw(st.booleans()), **thr)


def dm(states, L, N):
    """{(init, cl): density matrix as a dict {(values, values): x}} with weights."""
    out = {}
    for s in states:
        d = out.setdefault((s.init, tuple(s.cl), tuple(s.hist)), {})
        for v, a in s.comps.items():
            for w, b in s.comps.items():
                d[v, w] = d.get((v, w), 0) + s.cum * a * complex(b).conjugate()
    return out


def trace_out(d, keep):
    out = {}
    n = None
    for (v, w), x in d.items():
        n = len(v)
        if all(v[k] == w[k] for k in range(n) if k not in keep):
            key = tuple(v[k] for k in keep), tuple(w[k] for k in keep)
            out[key] = out.get(key, 0) + x
    return out


def same_dm(got, want, tol, what):
    lib.need(set(got) <= set(want) and all(k in got or abs(sum(x for (v, w), x in d.items() if v == w)) < 1e-7 for k, d in want.items()),
             '%s: groups (initial state, classical values, history) %s, expected %s' % (what, sorted(got), sorted(want)))
    for k in got:
        for e in set(got[k]) | set(want[k]):
            x, y = got[k].get(e, 0), want[k].get(e, 0)
            lib.need(abs(x - y) < tol, '%s: element %s of the density matrix of %s is %s, expected %s' % (what, e, k, x, y))


def check_reduce(case, ctx):
    """reduce is the partial trace over the removed channels and drops or reorders classical channels."""
    L, N, C = case['L'], case['N'], case['C']
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    other = coll.copy()
    snap = lib.snapshot(other)
    keep, ckeep = case['keep'], case['ckeep'] or list(range(C))
    full = keep == list(range(N)) and not case['explicit']
    coll.reduce(optical_channels_to_keep=[] if full else list(keep), classical_channels_to_keep=list(case['ckeep']))
    spec = dict(case, N=len(keep), C=len(ckeep))
    got = lib.read(coll, spec)
    want = {}
    for s in case['states']:
        m = lib.model(s, C)
        m.cl = [float(m.cl[k]) for k in ckeep]
        d = trace_out(next(iter(dm([m], L, N).values())), keep)
        key = (m.init, tuple(m.cl), tuple(m.hist))
        w = want.setdefault(key, {})
        for e, x in d.items():
            w[e] = w.get(e, 0) + x
    same_dm(dm(got, L, len(keep)), want, 1e-6, 'reduce to %s' % keep)
    for g in got:
        lib.need(abs(O.norm2(g.comps) - 1) < 1e-6, 'state is not normalised after reduce')
    lib.need(lib.snapshot(other) == snap, 'reduce changed a copy of the collection')
    usable(coll, spec)
    ctx.label('keep%d of %d' % (len(keep), N), 'sorted' if keep == sorted(keep) else 'reordered')
    ctx.nt(len(keep) < N and any(len(s['comps']) > 1 for s in case['states']))


def usable(coll, spec):
    """The collection can be evaluated on a circuit of its new geometry."""
    if spec['L'] ** spec['N'] > 2000:       # the matrix for a superposition of different numbers of photons takes gigabytes
        return
    out = lib.circuit(spec, [['swap', 0, 1]]).evaluate_circuit(collection_of_states_input=coll)
    a, b = lib.read(coll, spec), lib.read(out, spec)
    lib.need(len(a) == len(b), 'evaluation on a circuit with the new geometry loses states')
    for x, y in zip(a, b):
        lib.close(y.comps, O.apply2(x.comps, 0, 1, [[0, 1], [1, 0]], spec['L']), 1e-4 if spec.get('thr', 1e-9) < 1e-8 else 2 * math.sqrt(spec['thr']), 'swap after changing the geometry')


@st.composite
def extensions(draw):
    c = base(draw, max_size=64)
    L, N = c['L'], c['N']
    if draw(st.integers(0, 9)) == 0:        # two-digit photon numbers in several new channels
        L, N = draw(st.sampled_from([11, 12, 12])), 2
        sts = [draw(G.state(L, N, c['C'], max_terms=2)) for _ in range(draw(st.integers(1, 2)))]
        for k, s in enumerate(sts):
            s['id'], s['hist'] = 'id%d' % k, []
        on = {x: draw(st.integers(1, 4)) for x in draw(st.sets(st.sampled_from([0, 1, 1, 10, L - 1, L - 1]), min_size=2, max_size=3))}
        return dict(c, L=L, N=N, states=sts, extra=2, cextra=draw(st.integers(0, 1)), dist=[on.get(x, 0) / sum(on.values()) for x in range(L)])
    room = 1
    while room < 3 and L ** (N + room + 1) <= 1500:
        room += 1
    k = draw(st.integers(0, room))
    dist = draw(st.one_of(st.just([]), st.sampled_from(range(L)).map(lambda i: [0] * i + [1] + [0] * (L - i - 1)),
                          st.lists(st.integers(0, 4), min_size=L, max_size=L).filter(any).map(lambda w: [x / sum(w) for x in w])))
    thr = {}
    if draw(st.integers(0, 3)) == 0:        # states with less probability than the threshold are left out
        thr = dict(thr=draw(st.sampled_from([1e-3, 1.1e-2])))
        for s in c['states']:
            s['cum'] = draw(st.sampled_from([s.get('cum', 1.0), 0.02, 0.05, 0.1]))
    return dict(c, extra=k, cextra=draw(st.integers(0, 2)), dist=dist, **thr)


def check_extend(case, ctx):
    """extend adds channels in the requested statistical mixture after the existing ones; removing them again gives the original back."""
    L, N, C, k = case['L'], case['N'], case['C'], case['extra']
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    other = coll.copy()
    snap = lib.snapshot(other)
    kw = dict(statistical_distribution=list(case['dist'])) if case['dist'] else {}
    coll.extend(extra_optical_channels=k, extra_classical_channels=case['cextra'], **kw)
    spec = dict(case, N=N + k, C=C + case['cextra'])
    got = lib.read(coll, spec)
    dist = case['dist'] or [1] + [0] * (L - 1)
    want, thr = [], case.get('thr', 1e-9) if k or case['cextra'] else 0.0        # nothing to add: nothing is left out
    for s in case['states']:
        m = lib.model(s, C)
        todo = [((), 1.0)]
        for _ in range(k):
            todo = [(v + (n,), p * q) for v, p in todo for n, q in enumerate(dist)]
        for v, p in todo:
            if abs(m.cum * p - thr) < 1e-9 * thr:
                return                  # too close to tell
            if m.cum * p > thr:
                want.append(O.MState(m.init, m.cum * p, {w + v: a for w, a in m.comps.items()}, [float(x) for x in m.cl] + [0.0] * case['cextra'], m.hist))
    same_dm(dm(got, L, N + k), dm(want, L, N + k), 1e-6, 'extend')
    lib.need(len(got) == len(want), 'extend gives %d states, expected %d' % (len(got), len(want)))
    usable(coll, spec)
    if C or not case['cextra']:
        coll.reduce(optical_channels_to_keep=list(range(N)), classical_channels_to_keep=list(range(C)))
        back = lib.read(coll, case)
        ms = [O.MState(m.init, m.cum, {v[:N]: a for v, a in m.comps.items()}, m.cl[:C], m.hist) for m in want]
        same_dm(dm(back, L, N), dm(ms, L, N), 1e-6, 'extend and reduce')
    lib.need(lib.snapshot(other) == snap, 'extend changed a copy of the collection')
    ctx.label('extra%d' % k, 'mixed' if len(want) > len(case['states']) else 'pure')
    ctx.nt(k > 0 and any(len(s['comps']) > 1 for s in case['states']))


@st.composite
def lengths(draw):
    c = base(draw, max_size=64)
    n = c['N']
    return dict(c, Lnew=draw(st.sampled_from([x for x in range(c['L'], 14) if x ** n <= 700] or [c['L']])))


def check_length(case, ctx):
    """A longer Fock state keeps all states; going back to the original length restores the collection."""
    c = lib.circuit(case, [])
    coll = lib.collection(c, case, case['states'])
    before = lib.read(coll, case)
    other = coll.copy()
    snap = lib.snapshot(other)
    coll.adjust_length_of_fock_state(case['Lnew'])
    spec = dict(case, L=case['Lnew'])
    up = lib.read(coll, spec)
    usable(coll, spec)
    coll.adjust_length_of_fock_state(case['L'])
    down = lib.read(coll, case)
    for r, what in ((up, 'longer'), (down, 'longer and back')):
        lib.need([(x.id, x.init, x.cum, x.cl, x.hist) for x in r] == [(x.id, x.init, x.cum, x.cl, x.hist) for x in before], '%s: states differ' % what)
        for x, y in zip(r, before):
            lib.close(x.comps, y.comps, 1e-12, what)
    lib.need(lib.snapshot(other) == snap, 'the change of length changed a copy of the collection')
    ctx.label('digits%d' % O.digits(case['Lnew']))
    ctx.nt(case['Lnew'] > case['L'] and any(len(s['comps']) > 1 for s in case['states']))


@st.composite
def chains(draw):
    c = base(draw, max_size=64)
    L, N, C = c['L'], c['N'], c['C']
    ops = []
    for _ in range(draw(st.integers(2, 5))):
        kind = draw(st.sampled_from(['reduce', 'reduce', 'extend', 'extend', 'length', 'add', 'copy']))
        if kind == 'reduce':
            keep = draw(G.subset(N, 2, N))
            if draw(st.booleans()):
                keep = sorted(keep)
            ckeep = draw(G.subset(C)) if C and draw(st.booleans()) else []
            N, C = len(keep), len(ckeep) or C
            ops.append(['reduce', list(keep), list(ckeep)])
        elif kind == 'extend':
            k = draw(st.integers(0, 2))
            if L ** (N + k) > 500:
                k = 0
            mixed = k and draw(st.booleans())
            dist = draw(st.lists(st.integers(0, 3), min_size=L, max_size=L).filter(any).map(lambda w: [x / sum(w) for x in w])) if mixed else []
            ck = draw(st.integers(0, 2))
            if len(dist) - dist.count(0) > 3:
                dist = []
            ops.append(['extend', k, ck, dist])
            N, C = N + k, C + ck
        elif kind == 'length':
            new = draw(st.sampled_from([x for x in range(L, 13) if x ** N <= 500] or [L]))
            ops.append(['length', new])
            L = new
        elif kind == 'add':
            ops.append(['add', dict(draw(G.state(L, N, C, max_terms=3)), init='new%d' % len(ops))])
        else:
            ops.append(['copy'])
    return dict(c, ops=ops)


def check_chain(case, ctx):
    """Any sequence of these operations, mixed with adding states and copying, gives the density matrices of doing them one by one on paper."""
    L, N, C = case['L'], case['N'], case['C']
    coll = lib.collection(lib.circuit(case, []), case, case['states'])
    ms = [lib.model(s, C) for s in case['states']]
    for m in ms:
        m.cl = [float(x) for x in m.cl]
    want = dm(ms, L, N)
    kinds = []
    for op in case['ops']:
        spec = dict(case, L=L, N=N, C=C)
        if op[0] == 'reduce':
            coll.reduce(optical_channels_to_keep=list(op[1]), classical_channels_to_keep=list(op[2]))
            new = {}
            ck = op[2] or list(range(C))
            for (i, cl, h), d in want.items():
                w = new.setdefault((i, tuple(cl[k] for k in ck), h), {})
                for e, x in trace_out(d, op[1]).items():
                    w[e] = w.get(e, 0) + x
            want, N, C = new, len(op[1]), len(ck)
        elif op[0] == 'extend':
            kw = dict(statistical_distribution=list(op[3])) if op[3] else {}
            coll.extend(extra_optical_channels=op[1], extra_classical_channels=op[2], **kw)
            dist = op[3] or [1]
            add = [((), 1.0)]
            for _ in range(op[1]):
                add = [(v + (n,), p * q) for v, p in add for n, q in enumerate(dist) if q]
            want = {(i, cl + (0.0,) * op[2], h): {(v + a, w + a): x * p for (v, w), x in d.items() for a, p in add} for (i, cl, h), d in want.items()}
            N, C = N + op[1], C + op[2]
        elif op[0] == 'length':
            coll.adjust_length_of_fock_state(op[1])
            L = op[1]
        elif op[0] == 'add':
            s = lib.state(coll, spec, op[1])
            coll.add_state(s)
            m = lib.model(op[1], C)
            m.cl = [float(x) for x in m.cl]
            for k, d in dm([m], L, N).items():
                w = want.setdefault(k, {})
                for e, x in d.items():
                    w[e] = w.get(e, 0) + x
        else:
            coll = coll.copy()
        spec = dict(case, L=L, N=N, C=C)
        kinds.append(op[0])
        same_dm(dm(lib.read(coll, spec), L, N), want, 1e-6, 'after %s' % kinds)
    spec = dict(case, L=L, N=N, C=C)
    usable(coll, spec)
    for x in (coll, coll.copy()):
        s = fsc.State(x)
        lib.need(len(s.classical_channel_values) == C and [O.values_of(k, L, case['left']) for k in s.optical_components] == [(0,) * N],
                 'after %s a new state of the collection is %s with classical values %s' % (kinds, list(s.optical_components), s.classical_channel_values))
        s.set_state_components_from_vector([math.sqrt(1 - 1e-6), 1e-3] + [0.0] * (L ** N - 2))
        lib.need(len(s.optical_components) == 2, 'after %s the threshold of the collection or its copy is not the one of its circuit' % kinds)
    states = list(coll)
    snaps = P07.strip(lib.snapshot(coll))
    for k in range(0, len(states), 2):
        P07.mutate([states[k]])
    after = P07.strip(lib.snapshot(coll))
    for k in range(1, len(states), 2):
        lib.need(after[k] == snaps[k], 'after %s a change of one state shows in another one\n before %s\n after  %s' % (kinds, snaps[k], after[k]))
    ctx.nt(len(set(kinds)) > 1 and any(len(s['comps']) > 1 for s in case['states']))
    ctx.label(*kinds)


SCALE = 2
FACETS = [Facet('reduce', reductions(), check_reduce, 320, 12000), Facet('extend', extensions(), check_extend, 240, 8000),
          Facet('length', lengths(), check_length, 160, 5000),
          Facet('chain', chains(), check_chain, 400, 10000)]
