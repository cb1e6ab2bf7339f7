"""Results do not depend on how a circuit is represented."""
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O, prog
from fsv.core import Facet

RULE = ('a case is a program with input states and a change of representation; it is non-trivial when the program changes the states and the '
        'change of representation is not the identity')
PHYS = ['opt', 'wpc', 'psc', 'setc', 'cfun', 'meas']
RELABEL = PHYS + ['shiftd', 'csd', 'shift', 'cs']
LABELFREE = [k for k in RELABEL if k != 'cfun']


@st.composite
def flagged(draw):
    return dict(draw(prog.program(Cmax=3)), flip=draw(st.sampled_from(['full', 'left', 'both'])))


def check_flags(case, ctx):
    """Notation of component names and use of the full Fock matrix make no difference, for any program."""
    other = dict(case)
    if case['flip'] in ('full', 'both'):
        other['full'] = not case['full']
    if case['flip'] in ('left', 'both'):
        other['left'] = not case['left']
    a = lib.read(prog.run(case)[1], case)
    b = lib.read(prog.run(other)[1], other)
    lib.compare(a, b, what='representation ' + case['flip'])
    ctx.label(case['flip'])
    ctx.nt(prog.changed(case, a))


@st.composite
def longer(draw):
    p = draw(prog.program(max_size=80, Lmax=4, Nmax=4, kinds=PHYS, total=True))
    N = p['N']
    Lnew = draw(st.sampled_from([x for x in range(p['L'] + 1, 13) if x ** N <= 650] or [p['L'] + 1]))
    return dict(p, Lnew=Lnew)


def check_longer(case, ctx):
    """A larger length of the Fock state makes no difference for states with at most L-1 photons."""
    other = dict(case, L=case['Lnew'])
    a = lib.read(prog.run(case)[1], case)
    b = lib.read(prog.run(other)[1], other)
    lib.compare(a, b, what='length %d instead of %d' % (case['Lnew'], case['L']))
    ctx.label('digits%d' % O.digits(case['Lnew']))
    ctx.nt(prog.changed(case, a))


@st.composite
def permuted(draw):
    p = draw(prog.program(Cmax=3, kinds=LABELFREE))
    return dict(p, omap=list(draw(st.permutations(range(p['N'])))), cmap=list(draw(st.permutations(range(p['C'])))))


def place(v, m, n, fill=0):
    w = [fill] * n
    for k, x in enumerate(v):
        w[m[k]] = x
    return w


def mapped(case, omap, cmap, N, C, spect=None):
    def values(v):
        w = place(v, omap, N)
        for k, x in (spect or {}).items():
            w[k] = x
        return w
    other = dict(case, N=N, C=C, nodes=[prog.map_node(n, omap, cmap) for n in case['nodes']])
    other['states'] = [dict(s, comps=[[values(v), a] for v, a in s['comps']], **(dict(cl=place(s.get('cl', []), cmap, C)) if C else {}))
                       for s in case['states']]
    return other


def unmap(states, omap, cmap, spect=None):
    for s in states:
        new = {}
        for v, a in s.comps.items():
            for k, x in (spect or {}).items():
                lib.need(v[k] == x, 'photons in channel %d, which is not used, changed from %d to %d' % (k, x, v[k]))
            new[tuple(v[k] for k in omap)] = a
        s.comps = new
        s.cl = [s.cl[k] for k in cmap]
        s.hist = [(tuple(h[k] for k in cmap), p) for h, p in s.hist]
    return states


def check_permuted(case, ctx):
    """Renumbering optical and classical channels renumbers the result."""
    other = mapped(case, case['omap'], case['cmap'], case['N'], case['C'])
    a = lib.read(prog.run(case)[1], case)
    b = unmap(lib.read(prog.run(other)[1], other), case['omap'], case['cmap'])
    lib.compare(a, b, what='renumbered channels')
    ctx.label(*sorted({n[0] for n in case['nodes']}))
    ctx.nt(prog.changed(case, a) and case['omap'] != sorted(case['omap']))


@st.composite
def spectators(draw):
    p = draw(prog.program(max_size=30, Lmax=4, Nmax=3, Cmax=2, kinds=LABELFREE))
    order = list(draw(st.permutations(range(p['N'] + 2 if p['L'] < 4 or p['N'] < 3 else p['N'] + 1))))
    corder = list(draw(st.permutations(range(p['C'] + 1))))
    rest = order[p['N']:]
    return dict(p, order=order, corder=corder, photons=[draw(st.integers(0, p['L'] - 1)) for _ in rest])


def check_spectators(case, ctx):
    """Channels that no node uses keep their photons and do not influence the rest."""
    omap, cmap = case['order'][:case['N']], case['corder'][:case['C']]
    spect = dict(zip(case['order'][case['N']:], case['photons']))
    other = mapped(case, omap, cmap, len(case['order']), case['C'] + 1)
    other = mapped(case, omap, cmap, len(case['order']), case['C'] + 1, spect)
    a = lib.read(prog.run(case)[1], case)
    b = unmap(lib.read(prog.run(other)[1], other), omap, cmap, spect)
    lib.compare(a, b, what='with unused channels %s' % spect)
    ctx.label(*sorted({n[0] for n in case['nodes']}))
    ctx.nt(prog.changed(case, a) and any(case['photons']))


SCALE = 2
FACETS = [Facet('flags', flagged(), check_flags, 320, 12000), Facet('longer', longer(), check_longer, 160, 5000),
          Facet('permuted', permuted(), check_permuted, 240, 8000), Facet('spectators', spectators(), check_spectators, 160, 6000)]
