"""Signed absolute maximum and element-node lookup."""
import random

import numpy as np
from hypothesis import strategies as st

import gen
import models
from core import Facet, Violation
from vtu import MODEL, RESULTS

RULE = ('(a) random arrays (1 to 4 dimensions, all real number types, with '
        'ties, extreme, equal and infinite values) and every axis; the '
        'answer is compared with the members of its slice; (b) synthetic '
        'element lists and (c) random models with disconnected selections: '
        'for a shuffled list of pairs the positions must be those of the '
        'result of exactly that element and node. Non-trivial: (a) positive and '
        'negative largest magnitudes in one answer; (b, c) a node shared by '
        'several elements is asked for in at least two of them.')
ASSUMPTIONS = ['no NaN', 'pairs that exist in the selection']
TYPES = ['f8', 'f4', 'i8', 'i4', 'i2', 'i1', 'u1', 'u2', 'u4']


def run_absmax(c, ctx):
    from freesif import calc
    rnd = random.Random('absmax/%s' % c['seed'])
    n = int(np.prod(c['shape']))
    dt = np.dtype(c['dtype'])
    if dt.kind == 'f':
        pool = [0., -0., 1., -1., 2.5, -2.5, 1e30, -1e30]
        if c['extreme']:
            pool += [np.inf, -np.inf, float(np.finfo(dt).max),
                     -float(np.finfo(dt).max)]
        new = lambda: rnd.uniform(-100, 100)
    else:
        lo, hi = np.iinfo(dt).min, np.iinfo(dt).max
        pool = [0, 1, 2, max(lo, -1), max(lo, -2)]
        if c['extreme']:
            pool += [lo, hi, lo + 1, hi - 1]
        new = lambda: rnd.randrange(max(lo, -100), min(hi, 100))
    vals = [rnd.choice(pool) if rnd.random() < c['ties'] else new()
            for _ in range(n)]
    a = np.array(vals, dt).reshape(c['shape'])
    if c['sign']:
        a = np.abs(a) if c['sign'] > 0 or dt.kind == 'u' else -np.abs(a)
    if c['order']:
        a = np.asfortranarray(a)
    before = a.tobytes()
    lab = {c['dtype'], '%d dimensions' % a.ndim}
    for axis in [None] + list(range(-a.ndim, a.ndim)):
        got = np.asarray(calc.absmax(a) if axis is None else
                         calc.absmax(a, axis))
        if a.tobytes() != before:
            raise Violation('the array was changed')
        cols = a.reshape(1, -1) if axis is None else \
            np.moveaxis(a, axis, -1).reshape(-1, a.shape[axis])
        shape = () if axis is None else tuple(np.delete(a.shape, axis))
        if got.shape != shape:
            raise Violation('axis %s of %s gives shape %s' % (
                axis, a.shape, got.shape))
        for g, col in zip(got.ravel().tolist(), cols.tolist()):
            if g not in col or abs(g) != max(abs(x) for x in col):
                raise Violation('absmax of %s (%s) is %s' % (col, a.dtype, g))
        if got.size > 1 and (got < 0).any() and (got > 0).any():
            lab.add('nt')
    return lab


def check_pairs(pairs, elems, elno, nodeno, shared):
    from freesif import calc
    con, offset, eltyp = elems
    held = [np.array(x) for x in (con, offset, eltyp, elno, nodeno)]
    got = calc.find_elemres_indices(pairs, elems, elno, nodeno)
    for a, b in zip((con, offset, eltyp, elno, nodeno), held):
        if not np.array_equal(a, b):
            raise Violation('an argument was changed')
    got = np.asarray(got)
    if got.shape != (len(pairs),):
        raise Violation('%d pairs give shape %s' % (len(pairs), got.shape))
    owner = np.searchsorted(offset, np.arange(len(nodeno)), side='right')
    for p, g in zip(pairs, got.tolist()):
        if g < 0 or g >= len(nodeno):
            raise Violation('pair %s is found at %s' % (p, g))
        # the node whose results are at position g
        e = owner[g]
        n = len(RESULTS[int(eltyp[e])].split())
        first = int(offset[e]) - n
        at = first + MODEL[int(eltyp[e])].split().index(
            RESULTS[int(eltyp[e])].split()[g - first])
        if (int(elno[e]), int(nodeno[at])) != tuple(p):
            raise Violation('pair %s is found at %s' % (p, g))
    by = {}
    for e, n in set(map(tuple, pairs)):
        by.setdefault(n, []).append(e)
    lab = {'%d pairs' % min(len(pairs), 9)}
    if any(len(v) > 1 for v in by.values()):
        lab.add('nt')
    return lab


def choose(rnd, everything, n):
    pairs = [rnd.choice(everything) for _ in range(n)]
    if n > 2:
        few = rnd.sample(everything, min(len(everything), 4))
        nodes = {p[1] for p in few}
        pairs += [p for p in everything if p[1] in nodes]
        rnd.shuffle(pairs)
    return pairs


def run_lists(c, ctx):
    """Element lists made without a file."""
    rnd = random.Random('lists/%s' % c['seed'])
    sizes = {15: 2, 23: 3, 24: 4, 25: 3, 26: 6, 28: 8}
    nn = max([sizes[t] for t in c['types']]) + c['more']
    ext = rnd.sample(range(1, 5 * nn + 20), nn)
    elno = rnd.sample(range(1, 5 * len(c['types']) + 20), len(c['types']))
    nodes = [rnd.sample(ext, sizes[t]) for t in c['types']]
    nodeno = np.array([n for e in nodes for n in e])
    elems = (np.arange(len(nodeno)), np.cumsum([len(e) for e in nodes]),
             np.array(c['types']))
    if not c['tuple']:
        elems = list(elems)
    every = [(e, n) for e, ns in zip(elno, nodes) for n in ns]
    return check_pairs(choose(rnd, every, c['n']), elems, np.array(elno),
                       nodeno, None)


def run_model(c, ctx):
    m = models.Model(c['model'])
    d, close = models.open_model(m)
    try:
        sets, kind = models.resolve(m, c['sel'])
        idx = m.selected(sets, kind)
        if not idx:
            return set()
        elems = d.get_elements(sets=sets, kind=kind, disconnected=True)
        elno = d.get_elementnumbers(sets=sets, kind=kind)
        nodeno = d.get_nodenumbers(sets=sets, kind=kind, disconnected=True)
        every = [(m.elements[i]['elnox'], m.ext[n]) for i in idx
                 for n in m.elements[i]['nodes']]
        rnd = random.Random('pairs/%s' % c['model']['seed'])
        return check_pairs(choose(rnd, every, c['n']), elems, elno, nodeno,
                           None) | {'model'}
    finally:
        close()


@st.composite
def model_cases(draw, tier):
    mc = draw(models.model_cases(max_elems=10, max_sets=2))
    return {'model': mc, 'sel': models.selections(draw, mc['sets']),
            'n': draw(st.integers(1, 8))}


absmax_cases = st.fixed_dictionaries({
    'seed': gen.seeds, 'dtype': st.sampled_from(TYPES),
    'shape': st.lists(st.integers(1, 5), min_size=1, max_size=4),
    'ties': st.sampled_from([0., 0.3, 1.]), 'extreme': st.booleans(),
    'sign': st.sampled_from([0, 0, 0, 1, -1]), 'order': st.booleans()})
list_cases = st.fixed_dictionaries({
    'seed': gen.seeds, 'more': st.integers(0, 6), 'tuple': st.booleans(),
    'types': st.lists(st.sampled_from([15, 23, 24, 25, 26, 28]), min_size=1,
                      max_size=12), 'n': st.integers(1, 8)})

def large_arrays(tier):
    base = {'seed': 1, 'dtype': 'f8', 'ties': 0.3, 'extreme': False,
            'sign': 0, 'order': False}
    return [dict(base, shape=s, dtype=d, seed=i) for i, (s, d) in enumerate((
        ([20011], 'f8'), ([3000, 2, 3], 'f4'), ([2, 9000], 'i4'),
        ([2, 1, 3, 1, 2, 4], 'f8')))]


def large_models(tier):
    return [{'model': models.big_case(1, 1500, via='h5'),
             'sel': {'sets': s, 'kind': k, 'as': 'list'}, 'n': 400}
            for s, k in ((None, None), ([0, 2], None), (None, 'shell'))] + [
        {'model': models.huge_case(8, types=(15, 24, 25)), 'n': 400,
         'sel': {'sets': [0, 2], 'kind': None, 'as': 'list'}}]


FACETS = [Facet('large arrays', None, run_absmax, 0, 0, fixed=large_arrays,
                timeout=200),
          Facet('large models', None, run_model, 0, 0, fixed=large_models,
                timeout=200),
          Facet('absolute maximum', lambda tier: absmax_cases, run_absmax,
                1500, 40000),
          Facet('element lists', lambda tier: list_cases, run_lists, 1000,
                40000),
          Facet('models', model_cases, run_model, 100, 5000)]
