"""Whole programs: random lists of nodes with states, and transformations of them."""
import math
import random
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O


@st.composite
def program(draw, max_size=260, Lmax=4, Nmax=4, Cmax=3, Cmin=0, nodes=(1, 6), states=(1, 3), measure=True, matrix_nodes=True, Nmin=2,
            kinds=None, total=False):
    L, N = draw(G.dims(max_size, Lmax=Lmax, Nmax=Nmax, Nmin=Nmin))
    C = draw(st.integers(Cmin, Cmax))
    size = draw(st.integers(0, 15))  # now and then a long circuit or many states
    if size == 15 and nodes[1] > 3:
        nodes = (11, 14)
    if size == 14 and states[1] > 2:
        states = (11, 13)
    lst = draw(st.lists(G.any_node(L, N, C, matrix_nodes=matrix_nodes, measure=measure, kinds=kinds), min_size=nodes[0], max_size=nodes[1]))
    sts = [draw(G.state(L, N, C, (L - 1) if total else None)) for _ in range(draw(st.integers(*states)))]
    return dict(L=L, N=N, C=C, **draw(G.flags), nodes=related_nodes(draw, lst, N, C), states=related_states(draw, sts))


def related(draw, case):
    return dict(case, **{k: v for k, v in (('nodes', 'nodes' in case and related_nodes(draw, case['nodes'], case['N'], case.get('C', 0))),
                                           ('states', 'states' in case and related_states(draw, case['states']))) if v})


def related_nodes(draw, lst, N, C):
    """Now and then a node becomes a relative of another one: the same parameters, on the same or on other channels."""
    if len(lst) < 2 or draw(st.integers(0, 2)):
        return lst
    i, j = draw(st.lists(st.integers(0, len(lst) - 1), min_size=2, max_size=2, unique=True))
    if lst[i][0] not in OPT_ARGS:
        return lst
    perm = list(range(N))
    kind = draw(st.sampled_from(['same', 'turned', 'other', 'near']))
    if kind == 'near':      # other parameters by a fraction of a degree
        d = draw(st.sampled_from([4e-4, -4e-4, 4e-3]))
        op, *p = lst[i]
        m = len(OPT_ARGS[op][0]) + len(OPT_ARGS[op][1])
        if op in ('wp', 'hwp', 'qwp', 'ps', 'wph') and all(isinstance(x, (int, float)) for x in p):
            return lst[:j] + [[op] + p[:m] + [x + d for x in p[m:]]] + lst[j + 1:]
        if op in ('mixg', 'npbs'):
            return lst[:j] + [[op] + p[:m] + [x + abs(d) if x < 0.5 else x - abs(d) for x in p[m:]]] + lst[j + 1:]
    o = [lst[i][1 + k] for k in OPT_ARGS[lst[i][0]][0]]
    if kind == 'turned' and len(o) == 2 and not isinstance(o[0], list):
        perm[o[0]], perm[o[1]] = o[1], o[0]
    elif kind != 'same':
        perm = list(draw(st.permutations(perm)))
    lst = list(lst)
    lst[j] = map_node(lst[i], perm, list(draw(st.permutations(range(C)))) if kind == 'other' else None)
    return lst


def related_states(draw, sts):
    """Now and then a state becomes a relative of another one: equal in all but one respect."""
    if len(sts) < 2 or draw(st.integers(0, 2)):
        return sts
    i, j = draw(st.lists(st.integers(0, len(sts) - 1), min_size=2, max_size=2, unique=True))
    s = dict(sts[i])
    kind = draw(st.sampled_from(['init', 'cum', 'cl', 'conj', 'last', 'order', 'near']))
    if kind in ('init', 'cum'):
        s[kind] = sts[j][kind]
    elif kind == 'cl' and 'cl' in s and s['cl']:
        s['cl'] = s['cl'][:-1] + sts[j]['cl'][-1:]
    elif kind == 'near' and any(x != int(x) for x in s.get('cl') or []):     # angles that differ by a fraction of a degree
        d = draw(st.sampled_from([4e-4, -4e-4, 4e-3]))
        s['cl'] = [x + d for x in s['cl']]
    elif kind == 'conj':
        s['comps'] = [[v, [a[0], -a[1]]] for v, a in s['comps']]
    elif kind == 'last':
        s['comps'] = s['comps'][:-1] + [[s['comps'][-1][0], [-s['comps'][-1][1][0], s['comps'][-1][1][1]]]]
    elif kind == 'order':
        s['comps'] = s['comps'][::-1]
    return sts[:j] + [s] + sts[j + 1:]


@st.composite
def large(draw, states=(1, 80), nodes=(1, 50)):
    """Many states, many nodes or many channels: sizes that the other generators do not reach, with small states, spread out from a seed."""
    kind = draw(st.sampled_from(['states', 'states', 'nodes', 'nodes', 'channels']))
    if kind == 'channels':
        L, N = 2, draw(st.integers(6, 9))
    else:
        L, N = draw(st.sampled_from([(2, 2), (2, 3), (3, 2), (3, 3), (2, 4)]))
    C = draw(st.integers(1, 3)) if kind != 'channels' else draw(st.integers(4, 9))
    n = draw(st.integers(12, max(12, nodes[1]))) if kind == 'nodes' else draw(st.integers(1, 5))
    m = draw(st.integers(14, states[1])) if kind == 'states' else draw(st.integers(1, 3))
    rng = random.Random(draw(st.integers(0, 10 ** 9)))
    ang = lambda: round(rng.uniform(-3, 3), 2)
    lst, measured = [], 0
    for _ in range(n):
        a, b = rng.sample(range(N), 2)
        c, d = rng.randrange(C), rng.randrange(C)
        k = rng.choice(['wp', 'wp', 'hwp', 'mixg', 'ps', 'swap', 'mix', 'wpc', 'wpc', 'psc', 'setc', 'cfun', 'meas'])
        if k == 'meas':
            measured += 1
            if measured > 2 or m > 30:
                k = 'wpc'
        if k == 'meas':
            j = rng.randint(1, min(N, C, 2 if kind != 'channels' else 4))
            lst.append(['meas', rng.sample(range(N), j), rng.sample(range(C), j)])
        elif k == 'cfun':
            lst.append(['cfun', rng.choice(['add', 'sum']), [c], [rng.randint(-2, 2)]])
        else:
            lst.append({'wp': lambda: [k, a, b, ang(), ang()], 'hwp': lambda: [k, a, b, ang()], 'mixg': lambda: [k, a, b, round(rng.random(), 2)],
                        'ps': lambda: [k, a, ang()], 'swap': lambda: [k, a, b], 'mix': lambda: [k, a, b], 'wpc': lambda: [k, a, b, c, d],
                        'psc': lambda: [k, a, c], 'setc': lambda: [k, [ang()], [c]]}[k]())
    sts = []
    for i in range(m):
        vs = set()
        for _ in range(rng.randint(1, 3)):
            v = [0] * N
            for _ in range(rng.randint(0, L - 1)):
                v[rng.randrange(N)] += 1
            vs.add(tuple(v))
        amps = [complex(rng.gauss(0, 1), rng.gauss(0, 1)) + 0.1 for _ in vs]
        r = math.sqrt(sum(abs(a) ** 2 for a in amps))
        sts.append(dict(init='s%d' % (i if rng.random() < 0.8 else rng.randrange(i + 1)), cum=rng.choice([1.0, 0.5, 0.25]), cl=[rng.choice([0, 1, ang()]) for _ in range(C)],
                        comps=[[list(v), [a.real / r, a.imag / r]] for v, a in zip(sorted(vs), amps)]))
    return dict(L=L, N=N, C=C, **draw(G.flags), thr=1e-14, nodes=lst, states=sts)


def run(case, nodes=None, states=None, select=None, circuit=None):
    """Evaluate the program, returns (collection in, collection out)."""
    c = circuit or lib.circuit(case, nodes)
    coll = lib.collection(c, case, case['states'] if states is None else states)
    kw = {} if select is None else dict(nodes_to_be_evaluated=list(select))
    return coll, c.evaluate_circuit(collection_of_states_input=coll, **kw)


def expected(case, nodes=None, states=None):
    ms = [lib.model(s, case['C']) for s in (case['states'] if states is None else states)]
    return O.simulate(ms, case['nodes'] if nodes is None else nodes, case['L'], case['N'])


OPT_ARGS = {  # positions of optical and classical channel arguments after the operation code
    'wp': ([0, 1], []), 'hwp': ([0, 1], []), 'qwp': ([0, 1], []), 'hwp225': ([0, 1], []), 'hwp45': ([0, 1], []), 'qwp225': ([0, 1], []),
    'qwp45': ([0, 1], []), 'mix': ([0, 1], []), 'mixg': ([0, 1], []), 'swap': ([0, 1], []), 'ps': ([0], []), 'pbs': ([0, 1], []),
    'npbs50': ([0, 1], []), 'npbs': ([0, 1], []), 'copt': ([0], []), 'wpc': ([0, 1], [2, 3]), 'psc': ([0], [1]), 'wph': ([0, 1], []),
    'wphc': ([0, 1], [2, 3]), 'setc': ([], [1]), 'cfun': ([], [1]), 'meas': ([0], [1]), 'shift': ([0], []), 'shiftd': ([0], []),
    'cs': ([0, 1], []), 'csd': ([0, 1], []), 'gen': ([], [])}


def remap(x, m):
    return [remap(y, m) for y in x] if isinstance(x, list) else m[x]


def map_node(node, omap=None, cmap=None):
    op, *p = node
    o, c = OPT_ARGS[op]
    p = list(p)
    for k in o:
        if omap is not None:
            p[k] = remap(p[k], omap)
    for k in c:
        if cmap is not None:
            p[k] = remap(p[k], cmap)
    return [op] + p


def changed(case, out):
    """True when the output differs from the input states."""
    ins = [lib.model(s, case['C']) for s in case['states']]
    if len(ins) != len(out):
        return True
    return any(O.distance(a.comps, b.comps) > 1e-3 or a.cl != b.cl for a, b in zip(ins, out))
