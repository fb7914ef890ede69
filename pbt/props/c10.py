"""Decomposed stresses, section properties, thicknesses and names."""
import numpy as np
from hypothesis import strategies as st

import elemres
import gen
import models
import records as R
from core import Facet, Violation

RULE = ('(a) decomposed stresses of random models as in C09, and their '
        'relation to the general stresses the package itself returns; (b) '
        'random models with properties in arbitrary numbering, order and '
        'sharing, unused ones included: section properties and thicknesses '
        'for several set selections, set names, and result case names for '
        'all/one/several/unknown numbers. Non-trivial: (a) as C09; (b) at '
        'least two different properties in an answer or two names.')
ASSUMPTIONS = ['first and second order shells are not asked for together',
               'an element refers to one section or thickness for all its '
               'nodes',
               'transverse shear is the same in both layers of a thick shell']
BEAM = ('area ix iy iz iyz wxmin wymin wzmin shary sharz shceny shcenz sy '
        'sz').split()


def relation(d, m, q):
    """Decomposed against general stresses of the same selection."""
    sets, _ = models.resolve(m, q)
    idx = m.selected(sets, 'shell')
    arg, cases = elemres.pick_cases(m, q)
    elems = [m.elements[i] for i in idx]
    if not cases or not idx or len({k['cplx'] for k in cases}) > 1 or \
            len({models.ORDER[e['type']] for e in elems}) > 1:
        return
    kw = dict(run=q['run'], rescases=arg, sets=sets)
    g = d.get_elementresults('generalstress', **kw)
    x = d.get_elementresults('decomposedstress', **kw)
    if x.shape[:-1] != g.shape[:-2]:
        raise Violation('shapes %s and %s' % (g.shape, x.shape))
    lo, up = g[..., 0, :3], g[..., 1, :3]
    tol = 4e-6 * max(np.abs(g).max(), 125. * m.unit)
    for name, a, b in (('membrane', (lo + up) / 2, x[..., :3]),
                       ('bending', (up - lo) / 2, x[..., 3:6])):
        if not np.all(np.abs(a - b) <= tol):
            raise Violation('%s stresses %s do not match the surface '
                            'stresses %s' % (name, b.tolist(), g.tolist()))


def run_stress(case, ctx):
    lab = elemres.run(case, ctx)
    m = models.Model(case['model'])
    d, close = models.open_model(m, case['letter'])
    try:
        for i, q in enumerate(case['asks']):
            relation(models.Caller(d, i), m, q)
    finally:
        close()
    return lab


def run_props(case, ctx):
    m = models.Model(case['model'])
    d, close = models.open_model(m, case['letter'])
    lab = set()
    try:
        for k in range(2):
            for i, sel in enumerate(case['sels']):
                sets, _k = models.resolve(m, sel)
                lab |= check_props(models.Caller(d, k + i), m, sets)
            lab |= check_names(d, m, case['names'])
    finally:
        close()
    return lab


def check_props(d, m, sets):
    lab = set()
    idx = m.selected(sets, 'beam')
    if idx:
        res = d.get_section_properties(sets)
        want = [m.beamprops[m.elements[i]['geono']] for i in idx]
        if len(res) != len(want):
            raise Violation('%d section properties for %d beams' % (
                len(res), len(want)))
        for i, (r, w) in enumerate(zip(res, want)):
            got = [float(r['geono'])] + [float(r[n]) for n in BEAM]
            if got != [w[0]] + [float(np.float32(x)) for x in w[2:]]:
                raise Violation('section properties of beam %d of %r: %s, '
                                'expected %s' % (i, sets, got, w))
        lab.add('sections')
        if len({w[0] for w in want}) > 1:
            lab.add('nt')
        if len(want) > len({w[0] for w in want}):
            lab.add('shared sections')
    idx = m.selected(sets, 'shell')
    if idx:
        res = d.get_shell_thicknesses(sets)
        want = [m.thickness[m.elements[i]['geono']] for i in idx]
        if np.asarray(res).shape != (len(want),) or \
                not np.array_equal(res, np.array(want, 'f4')):
            raise Violation('thicknesses of the shells of %r: %s, expected '
                            '%s' % (sets, res, want))
        lab.add('thicknesses')
        if len(set(want)) > 1:
            lab.add('nt')
    return lab


def check_names(d, m, asks):
    lab = set()
    names = d.get_setnames()
    want = [n.encode() for n in m.setorder]
    if (names is None) != (not want) or \
            [bytes(n) for n in names or []] != want:
        raise Violation('set names %r, expected %r' % (names, want))
    if not m.loadnames:
        return lab
    if len(m.loadnames) > 1:
        lab.add('nt')
    nos = sorted(m.loadnames)
    for a in asks:
        if a is None:
            arg, sel = None, nos
        else:
            arg = [nos[i % len(nos)] if i >= 0 else 900 - i
                   for i in a['nos']]
            if a['as'] == 'int':
                arg = arg[0]
                sel = [arg]
            else:
                sel = list(arg)
                arg = {'tuple': tuple, 'array': np.array}.get(
                    a['as'], list)(arg)
        res = models.Caller(d, len(nos) + len(sel)).get_resultcase_names(arg)
        got = {int(k): bytes(v) for k, v in res.items()}
        exp = {n: m.loadnames[n] for n in sel if n in m.loadnames}
        if got != exp:
            raise Violation('result case names for %r: %r, expected %r' % (
                arg, got, exp))
        lab.add('names')
    return lab


@st.composite
def prop_cases(draw, tier):
    mc = draw(models.model_cases(
        max_elems=40 if tier == 'thorough' else 16,
        types=(15, 15, 23, 24, 24, 25, 26, 28, 18), max_sets=4, loads=16))
    sels = [models.selections(draw, mc['sets'], (None,))
            for _ in range(draw(st.integers(1, 4)))]
    ask = st.one_of(st.none(), st.fixed_dictionaries({
        'nos': st.lists(st.integers(-2, 15), min_size=1, max_size=12),
        'as': st.sampled_from(['int', 'list', 'tuple', 'array'])}))
    return {'model': mc, 'sels': sels, 'names': draw(
        st.lists(ask, min_size=1, max_size=4)),
        'letter': draw(st.sampled_from('TR'))}


def large(tier):
    return [{'model': models.big_case(s, n, sets=4, loads=k, via=v),
             'sels': [{'sets': x, 'kind': None, 'as': 'list'}
                      for x in (None, 1, [0, 2, 3])],
             'names': [None, {'nos': [0, k - 1, -3], 'as': 'list'},
                       {'nos': [k // 2], 'as': 'int'}], 'letter': 'T'}
            for s, n, k, v in ((1, 2000, 55, 'h5'), (2, 300, 20, 'sif'))] + [
        {'model': models.huge_case(7), 'letter': 'T', 'names': [None],
         'sels': [{'sets': x, 'kind': None, 'as': 'list'}
                  for x in (None, [0, 2, 3])]}]


FACETS = [
    Facet('large models', None, run_props, 0, 0, fixed=large, timeout=200),
    Facet('decomposed stresses', lambda tier: elemres.cases(
        tier, ('decomposedstress',)), run_stress, 60, 5000),
    Facet('properties and names', prop_cases, run_props, 120, 10000),
]
