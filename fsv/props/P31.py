"""Columns and interference groups that are built by hand keep their states, identifiers and information consistent."""
import math
import fock_state_circuit as fsc
from hypothesis import strategies as st
from fsv import gens as G, lib, oracle as O
from fsv.core import Facet

RULE = ('a case is a history of operations on a column or an interference group; it is non-trivial when two or more photons are involved and the '
        'information of the column changes after the first state was added, or when two columns or an identifier that is in use are involved')

KEYS = ['column_identifier', 'column_amplitude', 'column_boson_factor', 'interference_group_identifier', 'group_cumulative_probability']
DEFAULT = {'column_amplitude': 1, 'column_boson_factor': 1, 'column_identifier': 0, 'group_cumulative_probability': 1, 'interference_group_identifier': 0}
VALUE = {'column_identifier': st.integers(0, 30), 'interference_group_identifier': st.integers(0, 30),
         'column_amplitude': st.tuples(st.integers(-9, 9), st.integers(-9, 9)).map(lambda t: [t[0] / 10, t[1] / 10]),
         'column_boson_factor': st.integers(1, 40).map(lambda k: k / 8), 'group_cumulative_probability': st.integers(0, 20).map(lambda k: k / 20)}


def info(min_size=0):
    return st.lists(st.sampled_from(KEYS), min_size=min_size, max_size=5, unique=True).flatmap(lambda ks: st.fixed_dictionaries({k: VALUE[k] for k in ks}))


def real(d):
    return {k: complex(*v) if k == 'column_amplitude' else v for k, v in d.items()}


def make(coll, spec, case):
    """A state with one component; information on columns and photons in the auxiliary information when given."""
    s = fsc.State(coll)
    s.optical_components = [(O.name_of(spec['v'], case['L'], case['left']), 1)]
    s.cumulative_probability = spec['cum']
    s.initial_state = 's'
    if spec.get('info') is not None:
        s.auxiliary_information['photon_resolution'] = real(spec['info'])
    if spec.get('photon') is not None:
        s.auxiliary_information.setdefault('photon_resolution', {})['photon_information'] = dict(zip(('time_delay', 'pulse_width'), spec['photon']))
    return s


photon = st.none() | st.tuples(st.integers(-5, 5), st.sampled_from([1, 2])).map(list)


@st.composite
def state(draw, L, N, full=False):
    v = draw(G.values(L, N, draw(st.sampled_from([1, 1, 2, L - 1]))))
    inf = draw(st.none() | info(5 if full else 0))
    return dict(v=v, cum=draw(st.sampled_from([1.0, 0.5, 0.25])), info=inf, photon=draw(photon))


def photons_of(values, inf):
    return [(c, inf) for c, n in enumerate(values) for _ in range(n)]


# ---------------------------------------------------------------------------------------------------------------- columns
@st.composite
def columns(draw):
    L, N = draw(G.dims(250, Lmax=5, Nmax=5))
    if draw(st.integers(0, 9)) == 0:
        L, N = 12, 2
    how = draw(st.sampled_from(['state', 'list', 'empty']))
    start = [draw(state(L, N)) for _ in range({'state': 1, 'list': draw(st.integers(1, 4)), 'empty': 0}[how])]
    op = st.one_of(st.sampled_from(KEYS).flatmap(lambda k: VALUE[k].map(lambda v: ['set', k, v])), state(L, N).map(lambda s: ['add', s]), st.just(['copy']),
                   st.tuples(photon.filter(bool), st.none() | st.lists(G.values(L, N, 1), max_size=3), photon | st.just([])).map(lambda t: ['photon', *t]), st.just(['compose']))
    return dict(L=L, N=N, C=draw(st.integers(0, 2)), left=draw(st.booleans()), full=False, how=how, start=start, info=draw(info()),
                ops=draw(st.lists(op, min_size=1, max_size=8)))


def pdict(p):
    return dict(zip(('time_delay', 'pulse_width'), p)) if p is not None else {}


def check_column(case, ctx):
    """The information of a column is that of the last assignment, on the column and on all of its states, whatever the history; photons, filters and composition follow the states."""
    L, N, left = case['L'], case['N'], case['left']
    c = lib.circuit(case, [])
    coll = fsc.CollectionOfStates(c, dict())
    start = [make(coll, s, case) for s in case['start']]
    kw = {} if not case['info'] else dict(column_information=real(case['info']))
    col = fsc.ColumnOfStates(state=start[0], **kw) if case['how'] == 'state' else fsc.ColumnOfStates(list_of_states=start, **kw) if case['how'] == 'list' else fsc.ColumnOfStates(**kw)
    model = dict(DEFAULT)
    if case['start']:
        model.update(real(case['start'][0].get('info') or {}))
    model.update(real(case['info']))
    states = [[tuple(s['v']), pdict(s.get('photon'))] for s in case['start']]
    changed, spare = False, []

    def verify(col, model, states, what):
        lib.need(len(col) == len(states), '%s: %d states, expected %d' % (what, len(col), len(states)))
        for k in KEYS:
            lib.need(abs(complex(getattr(col, k)) - complex(model[k])) < 1e-9, '%s: %s of the column is %s, expected %s' % (what, k, getattr(col, k), model[k]))
        want = []
        for s, (v, inf) in zip(col, states):
            pr = s.auxiliary_information['photon_resolution']
            for k in KEYS:
                lib.need(k in pr and abs(complex(pr[k]) - complex(model[k])) < 1e-9, '%s: %s of a state is %s, expected %s' % (what, k, pr.get(k), model[k]))
            lib.need(pr.get('photon_information', {}) == inf, '%s: photon information of %s is %s, expected %s' % (what, v, pr.get('photon_information'), inf))
            lib.need(list(s.optical_components) == [O.name_of(v, L, left)], '%s: components %s, expected %s' % (what, list(s.optical_components), v))
            want += photons_of(v, inf)
        lib.need(col.list_of_photons() == want, '%s: photons %s, expected %s' % (what, col.list_of_photons(), want))
        if states:
            total = tuple(sum(x) for x in zip(*[v for v, _ in states]))
            lib.need(tuple(col.generate_optical_component_corresponding_to_column(return_values_instead_of_component_name_as_string=True)) == total, '%s: photon numbers of the column' % what)
            if max(total) < L:
                lib.need(col.generate_optical_component_corresponding_to_column() == O.name_of(total, L, left), '%s: component of the column' % what)
            lib.need(col.all_states_single_photon_states() is all(sum(v) <= 1 for v, _ in states), '%s: all_states_single_photon_states' % what)
            lib.need(col.all_states_single_optical_component() is True, '%s: all_states_single_optical_component' % what)

    verify(col, model, states, 'new column')
    for op in case['ops']:
        what = 'after %s' % (op,)
        if op[0] == 'set':
            v = complex(*op[2]) if op[1] == 'column_amplitude' else op[2]
            setattr(col, op[1], v)
            model[op[1]] = v
            changed = changed or bool(states)
        elif op[0] == 'add':
            col.add_state(make(coll, op[1], case))
            states.append([tuple(op[1]['v']), pdict(op[1].get('photon'))])
        elif op[0] == 'copy':
            new = col.copy()
            spare.append((col, dict(model), [list(x) for x in states]))
            col = new
        elif op[0] == 'photon':
            p, filt, default = op[1], op[2], op[3]
            kw = dict(photon_information=pdict(p))
            if filt is not None:
                kw['filter_for_optical_values'] = [list(f) for f in filt]
            if default is not None:
                kw['default_photon_information'] = pdict(default)
            col.set_photon_information(**kw)
            for s in states:
                if filt is None or list(s[0]) in [list(f) for f in filt]:
                    s[1] = pdict(p)
                elif default is not None:
                    s[1] = pdict(default)
        elif op[0] == 'compose' and states:
            total = tuple(sum(x) for x in zip(*[v for v, _ in states]))
            if max(total) < L:
                compose(col, model, states, total, case)
        verify(col, model, states, what)
    for k, (old, m, s) in enumerate(spare):
        verify(old, m, s, 'column that was copied')
    vs = [v for v, _ in states]
    for v, w in zip(vs, vs[1:]):
        if v != w:
            parts(case, coll, v, w)
            break
    ctx.label(case['how'], 'states%d' % min(5, len(states)), 'copies%d' % min(2, len(spare)))
    ctx.nt(changed and sum(sum(v) for v, _ in states) >= 2)


def parts(case, coll, v, w):
    """Photons of a state with several components cannot be taken apart: the request is refused and the column stays as it was."""
    s = fsc.State(coll)
    s.optical_components = [(O.name_of(x, case['L'], case['left']), a) for x, a in ((v, 0.6), (w, 0.8j))]
    col = fsc.ColumnOfStates(list_of_states=[s])
    try:
        col.single_photon_states()
    except Exception:
        lib.need(len(col) == 1 and len(col[0].optical_components) == 2 and col.column_boson_factor == 1, 'the column is changed by a refused request')
        return
    raise lib.Violation('a state with two components is taken apart in photons as if it had one: %s and %s' % (v, w))


def compose(col, model, states, total, case):
    """One state with all photons; the boson factor and probability follow the documented formulas, the column itself only changes when it is condensed."""
    L, left = case['L'], case['left']
    amp, gp = complex(model['column_amplitude']), model['group_cumulative_probability']
    if abs(amp) ** 2 * gp > 1:
        return
    for use in (True, False):
        one = col.generate_single_state_from_column() if use else col.generate_single_state_from_column(use_group_cumulative_probability_for_state=False)
        lib.need(list(one.optical_components) == [O.name_of(total, L, left)], 'composed state %s, expected %s' % (list(one.optical_components), total))
        lib.need(abs(next(iter(one.optical_components.values()))['amplitude'] - 1) < 1e-6, 'amplitude of the composed state')
        lib.need('photon_resolution' not in one.auxiliary_information, 'the composed state has information on columns')
        if use:
            lib.need(abs(one.cumulative_probability - gp * abs(amp) ** 2) < 1e-6, 'probability %s of the composed state, expected %s' % (one.cumulative_probability, gp * abs(amp) ** 2))
    cond = col.copy()
    cond.condense_column_to_single_state()
    root = lambda v: math.sqrt(math.prod(math.factorial(n) for n in v))
    want = model['column_boson_factor'] * math.prod(root(v) for v, _ in states) / root(total)
    lib.need(len(cond) == 1 and abs(cond.column_boson_factor - want) < 1e-9 * max(1, want), 'boson factor %s of the condensed column, expected %s' % (cond.column_boson_factor, want))
    lib.need(list(cond[0].optical_components) == [O.name_of(total, L, left)], 'state of the condensed column')
    pr = cond[0].auxiliary_information['photon_resolution']
    lib.need(abs(pr['column_boson_factor'] - want) < 1e-9 * max(1, want), 'boson factor on the state of the condensed column')
    # taking it apart in single photons and condensing again is the same as condensing
    two = cond.copy()
    two.single_photon_states()
    lib.need(abs(two.column_boson_factor - want * root(total)) < 1e-9 * max(1, want * root(total)), 'boson factor of single photons')
    lib.need(len(two) == max(1, sum(total)), '%d single photon states for %s' % (len(two), total))
    two.condense_column_to_single_state()
    lib.need(abs(two.column_boson_factor - want) < 1e-9 * max(1, want), 'boson factor after taking apart and condensing')


# ----------------------------------------------------------------------------------------------------------------- groups
@st.composite
def groups(draw):
    L, N = draw(G.dims(100, Lmax=4, Nmax=4))
    ident = st.integers(0, 4)
    st_ = state(L, N).map(lambda s: dict(s, info=None, photon=None))
    marked = st.tuples(state(L, N, full=True).filter(lambda s: s['info'] is not None), ident).map(lambda t: dict(t[0], info=dict(t[0]['info'], column_identifier=t[1])))
    op = st.one_of(st.tuples(st_, st.none() | ident).map(lambda t: ['state', *t]), st.tuples(marked, st.none() | ident).map(lambda t: ['state', *t]),
                   st.tuples(st.lists(st_, min_size=1, max_size=2), info(), st.none() | ident).map(lambda t: ['column', *t]),
                   st.integers(0, 9).map(lambda k: ['id', k]), st.integers(0, 20).map(lambda k: ['prob', k / 20]), st.integers(0, 9).map(lambda k: ['new', k]))
    return dict(L=L, N=N, C=0, left=draw(st.booleans()), full=False, gid=draw(st.none() | st.integers(0, 9)), ops=draw(st.lists(op, min_size=1, max_size=9)))


def check_group(case, ctx):
    """Columns are found under the identifier they have and states go to the column that is asked for; the next free identifier is used where one is taken or not given."""
    L, N, left = case['L'], case['N'], case['left']
    c = lib.circuit(case, [])
    coll = fsc.CollectionOfStates(c, dict())
    g = fsc.InterferenceGroup() if case['gid'] is None else fsc.InterferenceGroup(interference_group_identifier=case['gid'])
    gid = 0 if case['gid'] is None else case['gid']
    model, taken = {}, False          # identifier -> list of photon numbers, in order

    def free():
        k = 0
        while k in model:
            k += 1
        return k
    for op in case['ops']:
        if op[0] == 'state':
            s, cid = make(coll, op[1], case), op[2]
            if cid is None:
                g.add_state(s)
                cid = op[1]['info']['column_identifier'] if op[1]['info'] else free()
            else:
                g.add_state(s, column_identifier=cid)
            taken = taken or cid in model
            model.setdefault(cid, []).append(tuple(op[1]['v']))
        elif op[0] == 'column':
            col = fsc.ColumnOfStates(list_of_states=[make(coll, s, case) for s in op[1]], column_information=real(op[2]))
            cid = op[3]
            if cid is None:
                g.add_column(col)
            else:
                g.add_column(col, column_identifier=cid)
            if cid is None or cid in model:
                taken = taken or cid in model
                cid = free()
            model[cid] = [tuple(s['v']) for s in op[1]]
        elif op[0] == 'id':
            g.interference_group_identifier = gid = op[1]
        elif op[0] == 'prob':
            g.group_cumulative_probability = op[1]
            for col in g.by_column():
                lib.need(abs(col.group_cumulative_probability - op[1]) < 1e-9, 'the probability of the group is not set for its columns')
        elif op[0] == 'new' and model:       # a group made from the columns of this one
            g = fsc.InterferenceGroup(list_of_state_columns=list(g.by_column()), interference_group_identifier=op[1])
            gid = op[1]
        what = 'after %s' % (op,)
        lib.need(len(g) == len(model), '%s: %d columns, expected %d' % (what, len(g), len(model)))
        lib.need(g.interference_group_identifier == gid, '%s: identifier of the group' % what)
        for k, (cid, vals) in enumerate(model.items()):
            col = g.extract_column_by_identifier(cid)
            lib.need(col is g[k], '%s: order of the columns' % what)
            lib.need(col.column_identifier == cid, '%s: the column with identifier %s says it is %s' % (what, cid, col.column_identifier))
            lib.need(col.interference_group_identifier == gid, '%s: column %s is in group %s, expected %s' % (what, cid, col.interference_group_identifier, gid))
            lib.need([tuple(O.values_of(next(iter(s.optical_components)), L, left)) for s in col] == vals, '%s: states of column %s' % (what, cid))
            for s in col:
                pr = s.auxiliary_information['photon_resolution']
                lib.need(pr['column_identifier'] == cid and pr['interference_group_identifier'] == gid, '%s: a state of column %s says it is in column %s of group %s' % (
                    what, cid, pr['column_identifier'], pr['interference_group_identifier']))
        lib.need([id(s) for s in g.by_state()] == [id(s) for col in g.by_column() for s in col], '%s: order of the states' % what)
    ctx.label('columns%d' % min(4, len(model)), 'taken' if taken else 'free')
    ctx.nt(len(model) > 1 or taken)


SCALE = 5
FACETS = [Facet('column', columns(), check_column, 400, 8000), Facet('group', groups(), check_group, 400, 8000)]
