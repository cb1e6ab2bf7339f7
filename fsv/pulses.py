"""Reference model of photons with finite pulses: polynomials of creation operators with a channel and a time.

The last gate that sets the width of the pulses sets it for all photons (nodes can have a width of their own as last argument).

A state is a dict {sorted tuple of (channel, time): coefficient}; two pulses of width w at a distance t overlap by exp(-ln 2 (t/w)^2 / 2).
"""
import math, itertools, cmath
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O


def from_comps(comps):
    out = {}
    for v, a in comps.items():
        m = tuple(sorted((c, 0.0) for c, n in enumerate(v) for _ in range(n)))
        out[m] = out.get(m, 0) + a / math.sqrt(math.prod(math.factorial(n) for n in v))
    return out


def gate(p, a, b, M):
    if b is None:
        return {m: x * cmath.exp(1j * M * sum(c == a for c, t in m)) for m, x in p.items()}
    out = {}
    for m, x in p.items():
        terms = [((), x)]
        for c, t in m:
            new = []
            for k, y in terms:
                if c == a:
                    new += [(k + ((a, t),), y * M[0][0]), (k + ((b, t),), y * M[1][0])]
                elif c == b:
                    new += [(k + ((a, t),), y * M[0][1]), (k + ((b, t),), y * M[1][1])]
                else:
                    new.append((k + ((c, t),), y))
            terms = new
        for k, y in terms:
            if abs(y) > 1e-14:
                k = tuple(sorted(k))
                out[k] = out.get(k, 0) + y
    return out


def delay(p, chs, d):
    out = {}
    for m, x in p.items():
        k = tuple(sorted((c, round(t + d, 9)) if c in chs else (c, t) for c, t in m))
        out[k] = out.get(k, 0) + x
    return out


def inner(p, q, w):
    tot = 0
    for m, x in p.items():
        cm = [c for c, t in m]
        for n, y in q.items():
            if cm != [c for c, t in n]:
                continue
            s = 0
            for perm in itertools.permutations(range(len(n))):
                e = 0
                for i, j in enumerate(perm):
                    if cm[i] != n[j][0]:
                        break
                    e += (m[i][1] - n[j][1]) ** 2
                else:
                    s += math.exp(-math.log(2) * e / (2 * w * w))
            tot += x.conjugate() * y * s
    return complex(tot).real


def counts(m, chs):
    return tuple(sum(c == k for c, t in m) for k in chs)


def measure(p, chs, w):
    """{result: (probability, projected state)}"""
    groups = {}
    for m, x in p.items():
        groups.setdefault(counts(m, chs), {})[m] = x
    return {k: (inner(q, q, w), q) for k, q in groups.items()}


class Branch:
    def __init__(self, init, prob, cl, p, hist=(), w=None):
        self.init, self.prob, self.cl, self.p, self.hist, self.w = init, prob, list(cl), p, list(hist), w


def step(branches, node, w):
    op, *p = node
    gates = O.mode_gates(node)
    out = []
    for b in branches:
        if op == 'wpc':
            gates = [(p[0], p[1], O.plate(b.cl[p[2]], b.cl[p[3]]))]
        elif op == 'psc':
            gates = [(p[0], None, b.cl[p[1]])]
        if gates is not None:
            q = b.p
            for g in gates:
                q = gate(q, *g)
            out.append(Branch(b.init, b.prob, b.cl, q, b.hist, b.w))
        elif op == 'setc':
            cl = list(b.cl)
            for v, c in zip(p[0], p[1]):
                cl[c] = v
            out.append(Branch(b.init, b.prob, cl, b.p, b.hist, b.w))
        elif op == 'cfun':
            out.append(Branch(b.init, b.prob, O.CLASSICAL_FUNCTIONS[p[0]](list(b.cl), p[2], p[1]), b.p, b.hist, b.w))
        elif op in ('td', 'tdc'):
            d = p[1] if op == 'td' else b.cl[p[1]]
            out.append(Branch(b.init, b.prob, b.cl, delay(b.p, p[0], d), b.hist, p[2] if len(p) > 2 else w))
        elif op in ('qd', 'qdc'):
            d = p[1] if op == 'qd' else b.cl[p[1]]
            ov = math.exp(-math.log(2) * (d / w) ** 2)
            out.append(Branch(b.init, b.prob * ov, b.cl, b.p, b.hist))
            out.append(Branch(b.init, b.prob * (1 - ov), b.cl, delay(b.p, p[0], 1000.0 * w), b.hist))
        elif op == 'spw':
            out.append(Branch(b.init, b.prob, b.cl, b.p, b.hist, p[1]) if len(p) > 1 else b)
        elif op == 'meas':
            for k, (q, pp) in sorted(measure(b.p, p[0], b.w or w).items()):
                if q > 1e-9:
                    cl = list(b.cl)
                    for c, v in zip(p[1], k):
                        cl[c] = v
                    out.append(Branch(b.init, b.prob * q, cl, {m: x / math.sqrt(q) for m, x in pp.items()}, b.hist + [(tuple(cl), q)], b.w))
        else:
            raise ValueError(op)
    return out


def channels(chs):
    """A single even channel is given as a number, everything else as a list."""
    return chs[0] if len(chs) == 1 and chs[0] % 2 == 0 else list(chs)


def add(c, node, spec):
    op, *p = node
    w = spec['w']
    if op == 'td':
        c.time_delay_full(affected_channels=channels(p[0]), delay=p[1], pulse_width=p[2] if len(p) > 2 else w)
    elif op == 'tdc':
        c.time_delay_classical_control_full(affected_channels=channels(p[0]), classical_channel_for_delay=p[1], pulse_width=p[2] if len(p) > 2 else w)
    elif op == 'qd':
        kw = {'pulse_width': w} if spec.get('pw', True) else {'bandwidth': 1 / w}
        c.time_delay(affected_channels=channels(p[0]), delay=p[1], **kw)
    elif op == 'qdc':
        kw = {'pulse_width': w} if spec.get('pw', True) else {'bandwidth': 1 / w}
        c.time_delay_classical_control(affected_channels=channels(p[0]), classical_channel_for_delay=p[1], **kw)
    elif op == 'spw':
        c.set_pulse_width(affected_channels=p[0] if p[0] is None else list(p[0]), pulse_width=p[1] if len(p) > 1 else w)
    else:
        lib.add(c, node, spec)


def circuit(spec, nodes=None):
    c = lib.circuit(spec, [])
    for n in spec['nodes'] if nodes is None else nodes:
        add(c, n, spec)
    return c


def start(spec):
    return [Branch(s['init'], s.get('cum', 1.0), s.get('cl', [0] * spec['C']), from_comps(lib.comps_of(s))) for s in spec['states']]


def expected(spec, nodes=None):
    b = start(spec)
    for n in spec['nodes'] if nodes is None else nodes:
        b = step(b, n, spec['w'])
    return b


def table(coll, spec, channels=None):
    """Probabilities per (initial state, outcome name), read through the histogram output."""
    channels = list(range(spec['C'])) if channels is None else channels
    out = {}
    for init, lst in coll.plot(classical_channels=channels, histo_output_instead_of_plot=True).items():
        for e in lst:
            k = (init, e['output_state'])
            lib.need(k not in out, 'outcome %s is listed twice' % (k,))
            out[k] = float(e['probability'])
    return out


def outcome_name(values, spec):
    return O.name_of([abs(int(v) % spec['L']) for v in values], spec['L'], spec.get('left', True))


def summary(branches, spec, channels=None):
    channels = list(range(spec['C'])) if channels is None else channels
    out = {}
    for b in branches:
        k = (b.init, outcome_name([b.cl[c] for c in channels], spec))
        out[k] = out.get(k, 0) + b.prob
    return out


def rnd(values):
    return tuple(round(float(x), 4) + 0.0 for x in values)


def histories(coll):
    """The set of (initial state, classical values, measured results) of the states of a collection."""
    return {(x.initial_state, rnd(x.classical_channel_values), tuple(rnd(m['measurement_results']) for m in x.measurement_results)) for x in coll}


def history(b):
    return (b.init, rnd(b.cl), tuple(rnd(h[0]) for h in b.hist))


delays = st.one_of(st.sampled_from([0.0, 0.5, 1.0, -1.0, 2.0, 50.0, 0.25]), st.integers(-30, 30).map(lambda k: k / 10))


@st.composite
def states(draw, L, N, C, cvals, lo=1, hi=2):
    n = draw(st.integers(lo, hi))
    same = draw(st.booleans())
    return [dict(draw(G.state(L, N, C, L - 1, same=same, label='s%d' % k, cvals=cvals, max_terms=3))) for k in range(n)]
