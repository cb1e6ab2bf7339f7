"""Reference simulator, written from the documentation and independent of the code under test.

A pure state is a dict {(n0, n1, ...): complex}. A model state carries next to that the classical channel values, the cumulative
probability, the label of the initial state and the measurement history.
"""
import math, cmath, itertools, random
import numpy as np


def digits(L):
    return len(str(L - 1))


def name_of(values, L, left=True):
    words = [str(int(v)).zfill(digits(L)) for v in values]
    return ''.join(words if left else words[::-1])


def values_of(name, L, left=True):
    d = digits(L)
    if len(name) % d or not name.isdigit():
        raise ValueError('not a component name: %r' % (name,))
    words = [int(name[i:i + d]) for i in range(0, len(name), d)]
    return tuple(words if left else words[::-1])


def index_of(values, L):
    return sum(v * L ** k for k, v in enumerate(values))


def values_at(index, L, N):
    out = []
    for _ in range(N):
        out.append(index % L)
        index //= L
    return tuple(out)


def plate(theta, phi):
    """Two channel matrix of a retarder with orientation theta and retardance phi."""
    R = np.array([[math.cos(theta), math.sin(theta)], [-math.sin(theta), math.cos(theta)]])
    return R.T @ np.diag([1, cmath.exp(1j * phi)]) @ R


def apply2(comps, a, b, M, L):
    """Apply the 2x2 matrix M to channels a and b of a pure state: creation operator a -> M00 a + M10 b, b -> M01 a + M11 b.
    Components with more than L-1 photons in the two channels together pass unchanged (the documented limit of the
    truncated basis), except for a pure phase shift, which never needs more photons per channel."""
    out = {}
    diagonal = abs(M[0][1]) < 1e-8 and abs(M[1][0]) < 1e-8
    f = math.factorial
    for values, amp in comps.items():
        n, m = values[a], values[b]
        if n + m >= L and not diagonal:
            out[values] = out.get(values, 0) + amp
            continue
        pa = np.array([1.0 + 0j])               # polynomial in the power of channel a
        for _ in range(n):
            pa = np.convolve(pa, [M[1][0], M[0][0]])
        for _ in range(m):
            pa = np.convolve(pa, [M[1][1], M[0][1]])
        for u, c in enumerate(pa):              # u photons in a, n+m-u in b
            if c == 0:
                continue
            v = n + m - u
            if u >= L or v >= L:        # rounding error of a diagonal matrix
                continue
            w = list(values)
            w[a], w[b] = u, v
            w = tuple(w)
            out[w] = out.get(w, 0) + amp * c * math.sqrt(f(u) * f(v) / (f(n) * f(m)))
    return out


def apply_phase(comps, a, phi):
    return {v: amp * cmath.exp(1j * phi * v[a]) for v, amp in comps.items()}


def embed(M, a, b, N):
    U = np.eye(N, dtype=complex)
    U[a, a], U[a, b], U[b, a], U[b, b] = M[0][0], M[0][1], M[1][0], M[1][1]
    return U


def permanent(A):
    n = len(A)
    if n == 0:
        return 1
    if n > 5:
        return permanent_glynn(A)
    total = 0
    for p in itertools.permutations(range(n)):
        x = 1
        for i in range(n):
            x *= A[i][p[i]]
        total += x
    return total


def permanent_glynn(A):
    """Glynn's formula: mean over signs of the product of signed column sums."""
    A, n = np.array(A, dtype=complex), len(A)
    signs = np.array([(1,) + s for s in itertools.product((1, -1), repeat=n - 1)])
    return complex(np.sum(np.prod(signs, axis=1) * np.prod(signs @ A, axis=1)) / 2 ** (n - 1))


def lists_with_sum(N, total, cap):
    if N == 1:
        if total <= cap:
            yield (total,)
        return
    for k in range(min(total, cap) + 1):
        for rest in lists_with_sum(N - 1, total - k, cap):
            yield (k,) + rest


def permanent_evolution(comps, U, L):
    """Evolve a pure state under the N x N mode matrix U with permanents (total photon number at most L-1)."""
    N = len(U)
    out = {}
    for values, amp in comps.items():
        ins = [k for k, v in enumerate(values) for _ in range(v)]
        nin = math.prod(math.factorial(v) for v in values)
        for w in lists_with_sum(N, len(ins), L - 1):
            outs = [k for k, v in enumerate(w) for _ in range(v)]
            nout = math.prod(math.factorial(v) for v in w)
            p = permanent([[U[o][i] for i in ins] for o in outs]) / math.sqrt(nin * nout)
            if p != 0:
                out[w] = out.get(w, 0) + amp * p
    return out


def norm2(comps):
    return sum(abs(a) ** 2 for a in comps.values())


def overlap(x, y):
    return sum(complex(x[k]).conjugate() * y[k] for k in x if k in y)


def distance(x, y):
    """Largest difference in amplitude between two pure states."""
    return max([abs(x.get(k, 0) - y.get(k, 0)) for k in set(x) | set(y)] or [0.0])


def drop(comps, thr):
    return {k: a for k, a in comps.items() if abs(a) ** 2 >= thr}


# --------------------------------------------------------------------------------------------------------------------
# programs

def mode_gates(node):
    """The list of (a, b, M) or (a, None, phi) gates a static optical node consists of, or None for another node."""
    op, *p = node
    pi = math.pi
    if op == 'wp':
        return [(p[0], p[1], plate(p[2], p[3]))]
    if op == 'hwp':
        return [(p[0], p[1], plate(p[2], pi))]
    if op == 'qwp':
        return [(p[0], p[1], plate(p[2], pi / 2))]
    if op == 'hwp225':
        return [(p[0], p[1], plate(pi / 8, pi))]
    if op == 'hwp45':
        return [(p[0], p[1], plate(pi / 4, pi))]
    if op == 'qwp225':
        return [(p[0], p[1], plate(pi / 8, pi / 2))]
    if op == 'qwp45':
        return [(p[0], p[1], plate(pi / 4, pi / 2))]
    if op == 'mix':
        s = math.sqrt(0.5)
        return [(p[0], p[1], np.array([[s, s], [s, -s]]))]
    if op == 'mixg':
        r, t = math.sqrt(p[2]), math.sqrt(1 - p[2])
        return [(p[0], p[1], np.array([[r, t], [t, -r]]))]
    if op == 'swap':
        return [(p[0], p[1], np.array([[0, 1], [1, 0]]))]
    if op == 'ps':
        return [(p[0], None, p[1])]
    if op == 'pbs':
        return [(p[0][1], p[1][1], np.array([[0, 1], [1, 0]]))]
    if op == 'npbs50':
        return mode_gates(['mix', p[0][0], p[1][0]]) + mode_gates(['mix', p[0][1], p[1][1]])
    if op == 'npbs':
        return mode_gates(['mixg', p[0][0], p[1][0], p[2]]) + mode_gates(['mixg', p[0][1], p[1][1], p[2]])
    if op == 'copt':
        return [(p[0][0], p[0][1], np.array([[complex(*x) for x in row] for row in p[1]]))]
    return None


def apply_gates(comps, gates, L):
    for a, b, M in gates:
        comps = apply_phase(comps, a, M) if b is None else apply2(comps, a, b, M, L)
    return comps


def gates_unitary(gates, N):
    U = np.eye(N, dtype=complex)
    for a, b, M in gates:
        if b is None:
            E = np.eye(N, dtype=complex)
            E[a, a] = cmath.exp(1j * M)
        else:
            E = embed(M, a, b, N)
        U = E @ U
    return U


class MState:
    def __init__(self, init, cum, comps, cl, hist=(), extra=None):
        self.init, self.cum, self.comps, self.cl, self.hist = init, cum, dict(comps), list(cl), list(hist)

    def copy(self):
        return MState(self.init, self.cum, self.comps, self.cl, self.hist)


def measure(state, optical, classical):
    """Projective photon number measurement of the optical channels, results written to the classical channels."""
    groups = {}
    for values, amp in state.comps.items():
        groups.setdefault(tuple(values[k] for k in optical), {})[values] = amp
    out = []
    for result, comps in groups.items():
        p = norm2(comps)
        if p <= 0:
            continue
        new = state.copy()
        new.comps = {k: a / math.sqrt(p) for k, a in comps.items()}
        new.cum = state.cum * p
        for c, v in zip(classical, result):
            new.cl[c] = v
        new.hist = state.hist + [(tuple(new.cl), p)]
        out.append(new)
    return out


def shift_values(values, pairs, L):
    v = list(values)
    for target, amount in pairs:
        v[target] = (v[target] + amount) % L
    return tuple(v)


def cshift_values(values, controls, targets, L):
    v = list(values)
    for c, t in zip(controls, targets):
        v[t] = (v[t] + v[c]) % L
    return tuple(v)


def relabel(comps, fn):
    out = {}
    for v, a in comps.items():
        w = fn(v)
        out[w] = out.get(w, 0) + a
    return out


def permutation(seed, n):
    perm = list(range(n))
    random.Random(seed).shuffle(perm)
    return perm


CLASSICAL_FUNCTIONS = {
    'add': lambda cur, new, aff: [c + (new[aff.index(i)] if i in aff else 0) for i, c in enumerate(cur)],
    'mul': lambda cur, new, aff: [c * (new[aff.index(i)] if i in aff else 1) for i, c in enumerate(cur)],
    'rev': lambda cur, new, aff: list(cur)[::-1],
    'sum': lambda cur, new, aff: [sum(cur) if i in aff else c for i, c in enumerate(cur)],
}


def step(states, node, L, N):
    """One node applied to a list of model states."""
    op, *p = node
    gates = mode_gates(node)
    out = []
    for s in states:
        n = s.copy()
        if gates is not None:
            n.comps = apply_gates(n.comps, gates, L)
        elif op == 'wpc':
            n.comps = apply2(n.comps, p[0], p[1], plate(s.cl[p[2]], s.cl[p[3]]), L)
        elif op == 'psc':
            n.comps = apply_phase(n.comps, p[0], s.cl[p[1]])
        elif op in ('wph', 'wphc'):
            th, ph = (p[2], p[3]) if op == 'wph' else (s.cl[p[2]], s.cl[p[3]])
            n.comps = apply2(n.comps, p[0], p[1], plate(th, ph), L)
        elif op == 'setc':
            for v, c in zip(p[0], p[1]):
                n.cl[c] = v
        elif op == 'cfun':
            n.cl = CLASSICAL_FUNCTIONS[p[0]](list(s.cl), p[2], p[1])
        elif op == 'meas':
            out += measure(s, p[0], p[1])
            continue
        elif op in ('shift', 'shiftd'):
            n.comps = relabel(s.comps, lambda v: shift_values(v, list(zip(p[0], p[1])), L))
        elif op in ('cs', 'csd'):
            n.comps = relabel(s.comps, lambda v: cshift_values(v, p[0], p[1], L))
        elif op == 'fperm':
            # custom fock matrix given as a permutation of the basis with phases: basis k -> basis perm[k]
            perm = permutation(p[0], L ** N)
            res = {}
            for v, a in s.comps.items():
                k = index_of(v, L)
                res[values_at(perm[k], L, N)] = a * cmath.exp(1j * p[1][k % len(p[1])])
            n.comps = res
        elif op == 'gen':
            if p[0] == 'cset':
                n.cl = [s.cl[(i + 1) % len(s.cl)] for i in range(len(s.cl))] if s.cl else []
            elif p[0] == 'phase':
                n.comps = {v: a * (1j ** sum(v)) for v, a in s.comps.items()}
        else:
            raise ValueError(op)
        out.append(n)
    return out


def simulate(states, nodes, L, N):
    for node in nodes:
        states = step(states, node, L, N)
    return states
