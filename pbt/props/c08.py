"""Node results are those of the selected cases and of the selected nodes."""
import numpy as np
from hypothesis import strategies as st

import gen
import models
import records as R
from core import Facet, Violation

RULE = ('random models (as in C07, loose nodes with or without results) with '
        '1-5 result cases in up to two runs, real, complex or mixed, '
        'displacements, velocities and accelerations in any record order; up '
        'to 6 questions each (result type, run, cases as None/int/list/'
        'tuple/array in any order, sets, kind, disconnected), asked twice '
        'with the answers of the first round overwritten. The answer must '
        'have the stored values of every case and node. Non-trivial: more '
        'than one case stored and an answer with rows.')
ASSUMPTIONS = ['the results of a case stand together in ascending node order, '
               'cases in the order of the RDRESREF records',
               'loose nodes may be without results, then the unselected '
               'answer has a row for the nodes with results only']
TYPES = ('displacement', 'velocity', 'acceleration')


def pick_cases(m, q):
    """(rescases argument, cases it stands for)"""
    mine = [k for k in m.cases if k['run'] == q['run']]
    if not mine:
        return None, []
    if q['which'] is None:
        return None, mine
    want = [mine[i % len(mine)] for i in q['which']]
    ext = [k['ext'] for k in want]
    if q['as'] == 'int':
        ext, want = ext[:1], want[:1]
        arg = ext[0]
    elif q['as'] == 'npint':
        ext, want = ext[:1], want[:1]
        arg = np.int32(ext[0])
    elif q['as'] == 'tuple':
        arg = tuple(ext)
    elif q['as'] == 'array':
        arg = np.array(ext)
    else:
        arg = ext
    return arg, [k for k in mine if k['ext'] in ext]


def ask(d, m, q, overwrite):
    from freesif.exceptions import ResultError
    sets, kind = models.resolve(m, q)
    idx = m.selected(sets, kind)
    arg, cases = pick_cases(m, q)
    if not cases:
        return None
    what = '%s run=%r rescases=%r sets=%r kind=%r disconnected=%r: ' % (
        q['type'], q['run'], arg, sets, kind, q['disc'])
    kw = dict(run=q['run'], rescases=arg, sets=sets, kind=kind,
              disconnected=q['disc'])
    if len({k['cplx'] for k in cases}) > 1:
        try:
            d.get_noderesults(q['type'], **kw)
        except ResultError:
            return 'mixed'
        raise Violation(what + 'real and complex cases were not refused')
    nodes = models.nodes_of(m, idx, q['disc'], not sets and not kind)
    if not q['disc'] and not sets and not kind:
        nodes = [n for n in nodes if n in m.resnodes]
    res = d.get_noderesults(q['type'], **kw)
    exp = np.array([[m.nodevalues[q['type'], k['ires'], n] for n in nodes]
                    for k in cases], 'c16').reshape(
                        (len(cases), len(nodes), 6))
    if len(cases) == 1:
        exp = exp[0]
    compare(what, res, exp, cases[0]['cplx'])
    if overwrite and res.flags.writeable:
        res[...] = 3
    return 'complex' if cases[0]['cplx'] else 'real'


def compare(what, res, exp, cplx, tol=0.):
    if res.shape != exp.shape:
        raise Violation('%sshape %s, expected %s' % (what, res.shape,
                                                     exp.shape))
    if (res.dtype.kind == 'c') != bool(cplx):
        raise Violation('%sdata type %s' % (what, res.dtype))
    bad = np.argwhere(~(np.abs(res - exp) <= tol))
    if len(bad):
        i = tuple(bad[0])
        raise Violation('%s%s at %s, expected %s' % (what, res[i], i, exp[i]))


def run(case, ctx):
    m = models.Model(case['model'])
    d, close = models.open_model(m, case['letter'])
    lab = set()
    try:
        for overwrite in (True, False):
            for i, q in enumerate(case['asks']):
                r = ask(models.Caller(d, i + overwrite), m, q, overwrite)
                if r:
                    lab |= {r, q['type'], 'rescases ' + (
                        'None' if q['which'] is None else q['as'])}
                    if q['disc']:
                        lab.add('disconnected')
                    if r != 'mixed' and len(m.cases) > 1:
                        lab.add('nt')
    finally:
        close()
    if m.loose:
        lab.add('loose nodes')
    return lab


def question(draw, ns):
    q = models.selections(draw, ns)
    q['disc'] = draw(st.booleans())
    q['type'] = draw(st.sampled_from(TYPES))
    q['run'] = draw(st.sampled_from([1, 1, 2, 7]))
    q['which'] = draw(st.one_of(
        st.none(), st.lists(st.integers(0, 4), min_size=1, max_size=5)))
    q['as'] = draw(st.sampled_from(['list', 'tuple', 'array', 'int', 'npint']))
    return q


@st.composite
def cases(draw, tier):
    mc = draw(models.model_cases(
        max_elems=20 if tier == 'thorough' else 8,
        types=(15, 23, 24, 25, 26, 28, 18), max_sets=3, max_cases=5,
        results='node'))
    mc['noderes'] = list(TYPES)
    n = draw(st.integers(1, 6))
    return {'model': mc, 'asks': [question(draw, mc['sets'])
                                  for _ in range(n)],
            'letter': draw(st.sampled_from('RRT'))}


def large(tier):
    out = []
    for s, n, k, cx in ((1, 400, 2, 0), (2, 60, 25, 1), (3, 30, 120, 0)):
        mc = models.big_case(s, n, cases=k, cplx=cx)
        mc['noderes'] = ['displacement', 'velocity']
        ask = [{'sets': x, 'kind': kd, 'disc': d, 'as': 'list', 'run': 1,
                'type': 'displacement', 'which': w}
               for x, kd, d, w in ((None, None, False, None),
                                   (None, 'shell', True, None),
                                   ([0, 1], None, False, list(range(k))),
                                   (1, None, False, [k - 1, 0]))]
        out.append({'model': mc, 'asks': ask, 'letter': 'R'})
    mc = models.huge_case(6, cases=1)
    mc['noderes'] = ['displacement']
    out.append({'model': mc, 'letter': 'R', 'asks': [
        {'sets': x, 'kind': kd, 'disc': d, 'as': 'list', 'run': 1,
         'type': 'displacement', 'which': None}
        for x, kd, d in ((None, None, False), ([0, 1], 'shell', True))]})
    return out


FACETS = [Facet('large models', None, run, 0, 0, fixed=large, timeout=200),
          Facet('node results', cases, run, 160, 10000)]
