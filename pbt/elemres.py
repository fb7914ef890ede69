"""Asking for element results and what must come back (C09, C10)."""
import numpy as np
from hypothesis import strategies as st

import models
import records as R
import shells
from core import Violation
from props.c08 import compare, pick_cases


def ask(d, m, q, overwrite):
    from freesif.exceptions import ResultError
    restype = q['type']
    kind = 'beam' if restype == 'beamforce' else 'shell'
    sets, _ = models.resolve(m, q)
    idx = m.selected(sets, kind)
    arg, cases = pick_cases(m, q)
    if not cases or not idx:
        return None
    elems = [m.elements[i] for i in idx]
    orders = {models.ORDER.get(e['type'], 0) for e in elems}
    if len(orders) > 1:
        return None     # first and second order have different components
    what = '%s run=%r rescases=%r sets=%r: ' % (restype, q['run'], arg, sets)
    kw = dict(run=q['run'], rescases=arg, sets=sets)
    if len({k['cplx'] for k in cases}) > 1:
        try:
            d.get_elementresults(restype, **kw)
        except ResultError:
            return 'mixed'
        raise Violation(what + 'real and complex cases were not refused')
    res = d.get_elementresults(restype, **kw)
    exp = np.array([np.concatenate([
        shells.expected(e['type'], m.elemvalues[k['ires'], e['elno']],
                        restype) for e in elems]) for k in cases])
    if len(cases) == 1:
        exp = exp[0]
    nnodes = sum(len(e['nodes']) for e in elems)
    if exp.shape[0 if len(cases) == 1 else 1] != nnodes:
        raise RuntimeError('the model is wrong')
    scale = np.abs(exp).max() if exp.size else 0.
    tol = 0. if orders == {1} and restype == 'generalstress' else \
        2e-6 * max(scale, 125. * m.unit)
    compare(what, res, exp, cases[0]['cplx'], tol)
    # it lines up with the disconnected nodes
    n = len(d.get_nodenumbers(sets, kind, disconnected=True))
    if n != nnodes:
        raise Violation('%s%d disconnected nodes, %d result points' % (
            what, n, nnodes))
    if overwrite and res.flags.writeable:
        res[...] = 3
    return 'complex' if cases[0]['cplx'] else 'real'


def question(draw, ns, types):
    q = models.selections(draw, ns, (None,))
    q['type'] = draw(st.sampled_from(types))
    q['run'] = draw(st.sampled_from([1, 1, 2, 7]))
    q['which'] = draw(st.one_of(
        st.none(), st.lists(st.integers(0, 4), min_size=1, max_size=5)))
    q['as'] = draw(st.sampled_from(['list', 'tuple', 'array', 'int', 'npint']))
    return q


@st.composite
def cases(draw, tier, types):
    first = draw(st.sampled_from([(15, 24, 25), (15, 23, 26, 28),
                                  (15, 23, 24, 25), (26, 28, 23),
                                  (15, 23, 24, 25, 26, 28, 18)]))
    mc = draw(models.model_cases(
        max_elems=20 if tier == 'thorough' else 8, types=first,
        max_sets=4, max_cases=4, results='elem', loads=4))
    mc['elemres'] = ['RVFORCES', 'RVSTRESS']
    if draw(st.integers(0, 3)) == 0:
        mc['noderes'] = ['displacement']
    n = draw(st.integers(1, 6))
    return {'model': mc, 'asks': [question(draw, mc['sets'], types)
                                  for _ in range(n)],
            'letter': draw(st.sampled_from('RRT'))}


def run(case, ctx):
    m = models.Model(case['model'])
    d, close = models.open_model(m, case['letter'])
    lab = set()
    try:
        for overwrite in (True, False):
            for i, q in enumerate(case['asks']):
                r = ask(models.Caller(d, i + overwrite), m, q, overwrite)
                if not r:
                    continue
                lab |= {r, q['type'], 'rescases ' + (
                    'None' if q['which'] is None else q['as'])}
                kind = 'beam' if q['type'] == 'beamforce' else 'shell'
                t = {m.elements[i]['type'] for i in
                     m.selected(models.resolve(m, q)[0], kind)}
                lab |= {'type %d' % x for x in t}
                if len(t) > 1:
                    lab.add('mixed types')
                if r != 'mixed' and (len(m.cases) > 1 or len(t) > 1):
                    lab.add('nt')
    finally:
        close()
    return lab


def large(types):
    out = []
    for s, n, k, cx, ts in ((1, 600, 2, 0, (15, 24, 25)),
                            (2, 60, 20, 1, (23, 26, 28)),
                            (3, 12, 110, 0, (15, 25))):
        mc = models.big_case(s, n, ts, cases=k, cplx=cx)
        mc['elemres'] = ['RVFORCES', 'RVSTRESS']
        ask = [{'sets': x, 'kind': None, 'as': 'list', 'run': 1, 'type': t,
                'which': w}
               for t in types
               for x, w in ((None, None), ([0, 1], list(range(k))),
                            (1, [k - 1, 0]))]
        out.append({'model': mc, 'asks': ask, 'letter': 'R'})
    mc = models.huge_case(4, types=(15, 24, 25), cases=1)
    mc['elemres'] = ['RVFORCES', 'RVSTRESS']
    out.append({'model': mc, 'letter': 'R', 'asks': [
        {'sets': x, 'kind': None, 'as': 'list', 'run': 1, 'which': None,
         'type': t} for t, x in ((types[0], None), (types[-1], [0, 1]))]})
    return out
