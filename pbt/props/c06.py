"""Hierarchy transformations compose along the superelement path."""
import os
import random

import numpy as np
from hypothesis import strategies as st

import gen
import hier
import models
import records as R
import sif
from core import Facet, Violation

RULE = ('one or two random superelement trees (2-4 levels, repeated types, '
        'level skips, permuted references, shared transformations) as T or R '
        'file sets with a small model in every first-level file, appended to '
        'one .h5 file; every superelement of both trees is asked for its '
        'transformation and its nodes on every level from -1 to one above '
        'the top, the top, and by a matrix, for selections of sets and '
        'kinds; files without a hierarchy too. Expected: product of the '
        'matrices along the path. Non-trivial: a path with at least two '
        'transformations.')
ASSUMPTIONS = ['matrices of moderate size; results compared to 1e-5 of the '
               'sum of absolute products']


def path_matrix(tree, r, level):
    """Product of transformations from row r to the level, or None."""
    rows = {x[0]: x for x in tree['rows']}
    t = np.eye(4)
    mag = np.eye(4)
    n = 0
    while r[3] != level:
        if r[3] > level or r[5] == 0:
            return None
        m = np.array(tree['trans'][str(r[4])]).reshape(4, 4)
        t, mag = t.dot(m), mag.dot(np.abs(m))
        n += 1
        r = rows[r[5]]
    return t, mag, n


def close(what, got, want, mag):
    got = np.asarray(got)
    if got.shape != want.shape:
        raise Violation('%s: shape %s, expected %s' % (what, got.shape,
                                                       want.shape))
    if not np.all(np.abs(got - want) <= 1e-5 * mag + 1e-6):
        raise Violation('%s: %s, expected %s' % (what, got.tolist(),
                                                 want.tolist()))


def write_tree(case, d, seed):
    """Files of one tree; {row ihref or type: model}."""
    os.makedirs(d)
    rows = case['tree']['rows']
    top = [{'rec': 'IDENT', 'rows': [[float(rows[0][3]), float(rows[0][1]),
                                      3., 0.]]}] + \
        hier.tree_blocks(case['tree'])
    out = {}
    sif.write(os.path.join(d, hier.top_name(case)), top, case['form'])
    for name, group, r in hier.lower_names(case):
        blocks = [{'rec': 'IDENT', 'rows': [[float(r[3]), float(r[1]), 3.,
                                             0.]]}]
        if r[3] == 1:
            m = small_model('%s/%s' % (seed, name))
            out[group] = m
            blocks = blocks + m.blocks()[1:]
        sif.write(os.path.join(d, name), blocks, case['form'])
    return out


def small_model(seed):
    rnd = random.Random(seed)
    return models.Model({
        'seed': seed, 'loose': rnd.randrange(2), 'sets': 2, 'cases': [],
        'elems': [rnd.choice([15, 24, 25]) for _ in range(
            rnd.randrange(1, 5))]})


def run(case, ctx):
    import freesif as fs
    lab = set()
    trees = []
    for k, c in enumerate(case['trees']):
        c = dict(c, usefileprefix=True)
        ms = write_tree(c, 'd%d' % k, '%s/%d' % (case['seed'], k))
        prefix = 'XY'[k] + '_' if k else c['prefix']
        fs.sif2hdf5(os.path.join('d%d' % k, hier.top_name(c)), 'all.h5',
                    k > 0, prefix=prefix)
        g = '%s%s%s%d' % (prefix, c['fileprefix'], c['letter'],
                          c['tree']['rows'][0][1])
        trees.append((c, ms, g))
    f = fs.open_hdf5('all.h5')
    try:
        for c, ms, g in trees:
            lab |= check_tree(f, c, ms, g, random.Random(case['seed']))
    finally:
        f.close()
    return lab


def raises(error, call, what):
    try:
        r = call()
    except error:
        return
    raise Violation('%s was not refused: %s' % (what, r))


def check_tree(f, c, ms, g, rnd):
    from freesif.exceptions import HierarchyError
    tree, lab = c['tree'], set()
    top = f[g]
    toplevel = tree['rows'][0][3]
    for r in tree['rows'][1:]:
        levels = ['top'] + list(range(-1, toplevel + 2))
        data = m = None
        if r[3] == 1:
            group = 'R%d_%d' % (r[1], r[2]) if c['letter'] == 'R' else \
                'T%d' % r[1]
            data, m = f[g + '/' + group], ms[group]
        for level in levels:
            if level != 'top' and rnd.randrange(4) == 0:
                level = np.int64(level)  # as looked up in an array
            what = 'superelement %d index %d at level %s' % (r[1], r[2],
                                                             level)
            lv = toplevel if level == 'top' else level
            if lv == 1:
                if r[3] > 1:
                    continue
                p = np.eye(4), np.eye(4), 0
            elif lv == r[3]:
                continue
            else:
                p = path_matrix(tree, r, lv) if 1 < lv <= toplevel else None
            if p is None:
                raises(HierarchyError, lambda: top.get_transformation(
                    r[1], r[2], level), what)
                if data is not None:
                    raises(HierarchyError, lambda: data.get_nodes(
                        trans=level, **index(c, r)), what)
                lab.add('refused levels')
                continue
            t, mag, n = p
            close(what, top.get_transformation(r[1], r[2], level), t, mag)
            if level == 'top':
                close(what, top.get_transformation(r[1], r[2]), t, mag)
            if n > 1:
                lab.add('nt')
            if data is not None:
                check_nodes(data, m, level, index(c, r), t, mag, what, rnd)
        if data is not None:
            t = np.array(hier.matrix(rnd)).reshape(4, 4)
            k = rnd.randrange(6)
            if k < 2:
                t = t.astype('f4')
            elif k == 2:        # not in the order of rows in memory
                t = np.array(t, order='F')
            elif k == 3:
                t = np.repeat(np.repeat(t, 2, 0), 3, 1)[::2, ::3]
            elif k == 4:
                t = np.rint(4 * t).astype(int)
            check_nodes(data, m, t, index(c, r), t, np.abs(t),
                        'given matrix', rnd)
            raises(ValueError, lambda: data.get_nodes(trans='bottom'),
                   'a wrong string')
            raises(ValueError, lambda: data.get_nodes(trans=np.eye(3)),
                   'a 3x3 matrix')
            check_nodes(data, m, None, {}, np.eye(4), np.eye(4),
                        'no transformation', rnd)
    lab |= {c['letter'], 'levels:%d' % toplevel}
    return lab


def index(c, r):
    if c['letter'] == 'R':      # a group per repetition, no need to say
        return {'index': 1 + r[2] % 3} if r[1] % 2 else {}
    return {'index': r[2]} if r[2] != 1 else {}


def check_nodes(data, m, trans, kw, t, mag, what, rnd):
    sets = rnd.choice([None, None, m.setorder[0], m.setorder])
    kind = rnd.choice([None, None, 'beam', 'shell'])
    idx = m.selected(sets, kind)
    disc = rnd.randrange(2) == 0
    nodes = models.nodes_of(m, idx, disc, not sets and not kind)
    given = trans.copy() if isinstance(trans, np.ndarray) else trans
    got = models.Caller(data, rnd.randrange(3)).get_nodes(
        sets=sets, kind=kind, disconnected=disc, trans=given, **kw)
    if isinstance(trans, np.ndarray) and not np.array_equal(given, trans):
        raise Violation('the given matrix was changed')
    xyz = np.array([m.xyz[n] + [1.] for n in nodes]).reshape(-1, 4)
    close('nodes, ' + what, got, xyz.dot(t)[:, :3],
          np.abs(xyz).dot(mag)[:, :3])


# ---- files without a hierarchy -------------------------------------------

def run_single(case, ctx):
    from freesif.exceptions import HierarchyError
    m = small_model(case['seed'])
    letter = case['letter']
    blocks = m.blocks()
    rnd = random.Random('single/%s' % case['seed'])
    mats = [np.array(hier.matrix(rnd)) for _ in range(case['rsuptran'])]
    if letter == 'R' and case['hierarch']:
        blocks[1:1] = hier.tree_blocks({'rows': [[1, 1, 1, 1, 0, 0, []]],
                                        'trans': {}})
    if mats:
        blocks.append({'rec': 'RSUPTRAN', 'rows': [
            [18., i + 1.] + [float(x) for x in a]
            for i, a in enumerate(mats)]})
    m.c['via'] = case['via']
    m.c['form'] = case['form']
    m.blocks = lambda: blocks
    d, end = models.open_model(m, letter)
    try:
        for level in ('top', 2, 3):
            if level == 'top' and mats:
                t = mats[0].reshape(4, 4)
                check_nodes(d, m, 'top', {}, t, np.abs(t), 'RSUPTRAN', rnd)
            else:
                raises(HierarchyError, lambda: d.get_nodes(trans=level),
                       'level %s without a hierarchy' % level)
        for _ in range(3):
            t = np.array(hier.matrix(rnd)).reshape(4, 4)
            check_nodes(d, m, t, {}, t, np.abs(t), 'given matrix', rnd)
        raises(ValueError, lambda: d.get_nodes(trans=np.eye(4)[:3]),
               'a 3x4 matrix')
        check_nodes(d, m, None, {}, np.eye(4), np.eye(4), 'none', rnd)
    finally:
        end()
    return {'single', 'nt'} if mats else {'single'}


@st.composite
def cases(draw, tier):
    trees = [draw(hier.hier_cases((2, 3, 3, 4)))]
    if draw(st.integers(0, 3)) == 0:
        trees.append(draw(hier.hier_cases((2, 3))))
    return {'trees': trees, 'seed': draw(gen.seeds)}


single = st.fixed_dictionaries({
    'seed': gen.seeds, 'letter': st.sampled_from('TRR'),
    'rsuptran': st.integers(0, 2), 'hierarch': st.booleans(),
    'via': st.sampled_from(['sif', 'h5']), 'form': gen.any_form})

FACETS = [Facet('trees', cases, run, 60, 3000),
          Facet('no hierarchy', lambda tier: single, run_single, 60, 4000)]
