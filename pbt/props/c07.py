"""Nodes, elements and numbers of a selection describe the same elements."""
import numpy as np
from hypothesis import strategies as st

import models
import records as R
from core import Facet, Violation

RULE = ('random models of 1-40 elements of the types 15, 16, 18, 23, 24, 25, '
        '26, 28 with any external numbers, loose nodes, overlapping sets '
        '(several GSETMEMB records per set, nodes in them too), records in '
        'several runs, formatted or unformatted, and up to 6 selections each '
        '(sets as name/list/tuple, kind, disconnected); coordinates, numbers, '
        'connectivity, offsets and types are compared with the generated '
        'model element by element, twice (results of the first round are '
        'overwritten in between). Non-trivial: at least 2 element types and '
        'a selection of some but not all elements.')
ASSUMPTIONS = ['internal node and element numbers are 1, 2, ... in file order']


def check_selection(d, m, sel, disconnected, overwrite):
    sets, kind = models.resolve(m, sel)
    idx = m.selected(sets, kind)
    everything = not sets and not kind
    kw = dict(sets=sets, kind=kind)
    what = 'sets=%r kind=%r disconnected=%r: ' % (sets, kind, disconnected)
    xyz = d.get_nodes(disconnected=disconnected, **kw)
    nx = d.get_nodenumbers(disconnected=disconnected, **kw)
    ni = d.get_nodenumbers(disconnected=disconnected, numbertype='internal',
                           **kw)
    con, offset, typ = d.get_elements(disconnected=disconnected, **kw)
    ex = d.get_elementnumbers(**kw)
    ei = d.get_elementnumbers(numbertype='internal', **kw)

    elems = [m.elements[i] for i in idx]
    same(what + 'element numbers', ex, [e['elnox'] for e in elems])
    same(what + 'internal element numbers', ei, [e['elno'] for e in elems])
    same(what + 'element types', typ, [e['type'] for e in elems])
    ends, n = [], 0
    for e in elems:
        n += len(e['nodes'])
        ends.append(n)
    same(what + 'offsets', offset, ends)
    if len(con) != n:
        raise Violation('%s%d connectivity entries, expected %d' % (
            what, len(con), n))
    want = models.nodes_of(m, idx, disconnected, everything)
    if len(xyz) != len(want):
        raise Violation('%s%d coordinates, expected %d' % (what, len(xyz),
                                                           len(want)))
    if len(nx) != len(xyz) or len(ni) != len(xyz):
        raise Violation('%s%d coordinates but %d and %d node numbers' % (
            what, len(xyz), len(nx), len(ni)))
    # every coordinate row is the node of its number
    for k in range(len(xyz)):
        i = int(ni[k]) - 1
        if not 0 <= i < m.nn or m.ext[i] != nx[k] or \
                not np.array_equal(xyz[k], np.array(m.xyz[i], 'f4')):
            raise Violation('%snode row %d: %s internal %s external %s' % (
                what, k, xyz[k], ni[k], nx[k]))
    if not disconnected and len(set(ni.tolist())) != len(ni):
        raise Violation(what + 'a node occurs twice')
    if sorted(ni.tolist()) != sorted(i + 1 for i in want):
        raise Violation('%snodes are %s, expected %s' % (
            what, ni, [i + 1 for i in want]))
    # every element gets its own nodes
    if n and (np.min(con) < 0 or np.max(con) >= len(xyz)):
        raise Violation(what + 'connectivity points outside the nodes')
    got = [int(ni[c]) - 1 for c in con]
    exp = [x for e in elems for x in e['nodes']]
    if got != exp:
        k = next(k for k in range(n) if got[k] != exp[k])
        raise Violation('%sconnectivity entry %d is node %d, expected %d' % (
            what, k, got[k] + 1, exp[k] + 1))
    if disconnected and len(set(np.asarray(con).tolist())) != n:
        raise Violation(what + 'disconnected elements share nodes')
    if overwrite:
        for a in (xyz, nx, ni, con, offset, typ, ex, ei):
            if a.flags.writeable:
                a[...] = 7
    return idx


def same(what, got, want):
    got = np.asarray(got)
    if got.shape != (len(want),) or got.tolist() != list(want):
        raise Violation('%s are %s, expected %s' % (what, got.tolist()[:50],
                                                    list(want)[:50]))
    if got.dtype.kind not in 'iu':
        raise Violation('%s are %s, expected integers' % (what, got.dtype))


def run(case, ctx):
    m = models.Model(case['model'])
    d, close = models.open_model(m, case['letter'])
    lab = {'via ' + case['model']['via'], case['model']['form']['kind']}
    partial = False
    try:
        names = d.get_setnames()
        want = [n.encode() for n in m.setorder] or None
        if names is not None:
            names = [bytes(n) for n in names]
        if names != want:
            raise Violation('set names are %r, expected %r' % (names, want))
        for overwrite in (True, False):
            for i, sel in enumerate(case['sels']):
                idx = check_selection(models.Caller(d, i + overwrite), m, sel, sel['disc'], overwrite)
                if not idx:
                    lab.add('nothing selected')
                else:
                    partial = partial or len(idx) < len(m.elements)
                    lab.add('%s%s%s' % (
                        'sets' if sel['sets'] is not None else 'no sets',
                        '/' + sel['kind'] if sel['kind'] else '',
                        '/disconnected' if sel['disc'] else ''))
    finally:
        close()
    if m.loose:
        lab.add('loose nodes')
    if partial and len({e['type'] for e in m.elements}) > 1:
        lab.add('nt')
    return lab


@st.composite
def cases(draw, tier):
    mc = draw(models.model_cases(
        max_elems=40 if tier == 'thorough' else 16,
        types=(15, 15, 23, 24, 24, 25, 26, 28, 16, 18), max_sets=5))
    sels = []
    for _ in range(draw(st.integers(1, 6))):
        s = models.selections(draw, mc['sets'])
        s['disc'] = draw(st.booleans())
        sels.append(s)
    return {'model': mc, 'sels': sels,
            'letter': draw(st.sampled_from('TR'))}


def large(tier):
    return [{'model': models.big_case(s, n, (15, 16, 18, 23, 24, 25, 26, 28), via=v),
             'sels': [{'sets': x, 'kind': k, 'disc': d, 'as': 'list'}
                      for x, k, d in ((None, None, False),
                                      (None, 'shell', False),
                                      ([0, 1], None, False),
                                      ([2, 0, 3], 'beam', True))],
             'letter': 'T'}
            for s, n, v in ((1, 2500, 'h5'), (2, 700, 'sif'))] + [
        # more nodes and elements than 16 bits can count
        {'model': models.huge_case(29, 42000), 'letter': 'T',
         'sels': [{'sets': x, 'kind': k, 'disc': d, 'as': 'list'}
                  for x, k, d in ((None, None, False), (None, 'shell', True),
                                  ([0, 2], None, False))]}]


FACETS = [Facet('large models', None, run, 0, 0, fixed=large, timeout=200),
          Facet('selections', cases, run, 160, 12000)]
